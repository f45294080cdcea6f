# ---------------------------------------------------------------- client library
p("C01", "A bounded walk delivers every readable envelope exactly once, in order",
  "Walking a source over a start and an end time hands the visitor every envelope that is in the window, matches the filters and is older than the walk's delay, exactly once and in timestamp order, whatever the limit and however many envelopes share a timestamp, provided a read never splits such a group. An unbounded walk does the same with envelopes that keep arriving, none of them earlier than what was delivered, and no walk delivers one younger than the delay, save a bounded one after a read that left nothing to deliver. Each read asks for the walk's source, limit, end time, filters, and starts right after the last delivered envelope.",
  ["inputs", "histories"], "all cache contents, arrival orders, limits, windows and delays; cut at 40 envelopes and small timestamps",
  "The tests walk a handful of scripted pages; loss or duplication at page borders shows only for some group sizes, limits and arrival times.",
  ["pkg/client/walk.go"], [("next start is last timestamp + 1; delay cut", "pkg/client/walk.go:Walk")],
  pkg="client", oracle="a model cache with arrivals in virtual time",
  note="Random cases against a reference cache in virtual time; no claim for reads that split equal timestamps, nor for time spent inside a read.",
  observe=["visitor calls and read parameters"])
p("C02", "A walk stops exactly when its visitor, backoff, end or context says so",
  "A walk asks its error backoff exactly after a failed read and its empty backoff exactly after a read that delivers nothing, sleeps nothing of its own, and returns when that backoff, the visitor, or the end time says so, or when the context is done before another read. The stock backoffs sleep their stated delay, retry the stated number of consecutive times, and start counting anew after a reset, which every delivering read causes.",
  ["histories", "fault_sequences"], "all interleavings of failing, empty and delivering reads, visitor answers and cancellations",
  "Tests script single failures; counters that are not reset or reads after cancellation need mixed histories.",
  ["pkg/client/walk.go"], [("backoff calls", "pkg/client/walk.go:Walk"), ("retry counters", "pkg/client/walk.go:RetryBackoff")],
  pkg="client", oracle="a model of the walk's decisions", note="Random read scripts in virtual time; every backoff call, sleep and read is compared with the model.")
p("C03", "A sliding window shows each window's envelopes, and slides by its interval",
  "A window shows its visitor, interval after interval, the envelopes of a span of the given width that trails the present by the width and the interval, each span one interval after the previous one, until the visitor declines. Each walk's context ends with the caller's, and after an interval. A built walker returns every envelope of the span asked for, in a list that no later call changes.",
  ["inputs", "histories"], "all widths, intervals, start times, contents and visitor answers",
  "Tests check one width and one slide; drift and border errors need many.",
  ["pkg/client/window.go"], [("window start advances by the interval", "pkg/client/window.go:Window")],
  pkg="client", oracle="the stated arithmetic in virtual time", note="Random widths, intervals and contents in virtual time.")
p("C04", "Reads and meta give the same answer over HTTP as over gRPC",
  "For every source id, start time and set of read options, a client that reads over HTTP through the gateway makes the cache see the same request as a client that reads over gRPC, and both return exactly the envelopes the cache answered with, in its order, including payload bytes, tags, instance and all message kinds. The same holds for meta. An error of the cache is an error for both, with no envelopes.",
  ["inputs"], "all source ids without empty, dot or dot-dot path segments, all options, all finite envelopes, all gRPC codes",
  "Tests compare one request and one envelope per transport; encoding loss depends on characters, extremes and kinds.",
  ["pkg/client/client.go", "internal/gateway/gateway.go", "pkg/rpc/logcache_v1/egress.pb.gw.go"],
  [("URL and query encoding", "pkg/client/client.go:Read"), ("transcoding", "internal/gateway/gateway.go:listenAndServe")],
  pkg="gateway", oracle="the other transport (differential) and a recording backend", note="Real client, gateway and gRPC server over loopback, with a recording fake cache.")
p("C05", "PromQL queries give the same answer over HTTP as over gRPC",
  "For every query text and every time, start, end and step option, an instant or a range query made over HTTP through the gateway reaches the query service as the same request as over gRPC, with times at millisecond precision, and returns an equal result: same kind, metrics, point times to the millisecond, and values bit for bit, NaN and infinities included. The raw variants return the same data as JSON. A failing query is an error for both; the raw variants report a bad request or an internal error as the service's message with status error, and any other status as an error.",
  ["inputs"], "all query strings, times within the years 1970 to 2262, results and gRPC codes",
  "Tests use one query and one result; escaping, rounding and special values need many.",
  ["pkg/client/client.go", "internal/gateway/gateway.go", "pkg/marshaler/marshaler.go", "pkg/rpc/logcache_v1/promql.pb.gw.go"],
  [("query encoding", "pkg/client/client.go:PromQL"), ("error body", "internal/gateway/gateway.go:httpErrorHandler")],
  pkg="gateway", oracle="the other transport (differential) and a recording backend", note="Real client, gateway and gRPC server over loopback, with a recording fake query service.")
p("C06", "Whatever the server answers, the client returns data or an error, not a panic",
  "When a request fails, the status is not 200, or the body is cut, malformed or of the wrong shape, every client call returns an error and no data instead of panicking or returning data the server did not send; raw query calls pass on the service's own 400 and 500 documents. The client closes every response body it gets, also on failure, and each request carries the caller's context, method GET, and the configured address; by default it gives up after five seconds. A call that succeeds over gRPC with an answer without envelopes returns none.",
  ["inputs", "fault_sequences"], "all statuses, bodies, cuts and mutations of well-formed bodies, transport errors",
  "Tests try one bad status and one bad body per call.",
  ["pkg/client/client.go"], [("status and decode checks", "pkg/client/client.go")],
  pkg="client", oracle="an independent judgement of the body", note="Random and mutated responses through a scripted transport that tracks body closure and contexts.")
p("C07", "The client reads from the API path that fits the server's version",
  "A client that reads over HTTP asks the server's info endpoint and reads from /api/v1 for versions from 2.0.0 in semantic-version order and from /v1 for older ones; a server without the endpoint counts as 1.4.7, and one that was upgraded or rolled back since an earlier read as what it is now. Any other answer, or a version that is none, is an error and no read follows. The reported uptime is the number in the info answer, or an error with a negative number when the answer has none.",
  ["inputs"], "all versions with pre-releases and metadata, statuses and info bodies",
  "Tests try two versions; ordering at the border, pre-releases and odd bodies need many.",
  ["pkg/client/client.go"], [("version comparison", "pkg/client/client.go:getBaseApiPath"), ("info", "pkg/client/client.go:LogCacheVersion")],
  pkg="client", oracle="a reference ordering of versions", note="Random info answers through a scripted transport.")
p("C08", "The OAuth2 client authorizes each request, and renews its token after a refusal",
  "Every request without an Authorization header is sent with the type and value of the most recent token the OAuth2 server gave; a token is fetched when there is none, kept while requests succeed, and fetched anew for the next request after one answered outside the 2xx range. A request that already has the header is sent unchanged with no token fetched, and a failed token fetch is an error with the request not sent. This holds, without data races, for requests from many goroutines, none of which waits for a token longer than its own context allows, and the token request carries the configured credentials.",
  ["histories", "schedules", "fault_sequences"], "all sequences and interleavings of requests, refusals and token failures",
  "Tests use one or two sequential requests.",
  ["pkg/client/oauth2_http_client.go"], [("token under a lock", "pkg/client/oauth2_http_client.go:Do")],
  pkg="client", race=True, oracle="a state machine of the token; plus the race detector for concurrent histories", note="Random sequential histories against the state machine, random concurrent ones against its invariants.")
# ---------------------------------------------------------------- marshaler
p("C09", "PromQL results survive JSON encoding and decoding",
  "Encoding any well-formed instant or range query result and decoding it gives an equal result: the same kind, metrics and order, values bit for bit up to the NaN payload, and times rounded to the millisecond. Encoding the decoded result again gives the same bytes.",
  ["inputs"], "all scalar, vector and matrix results, all float64 values, times up to the year 2262, any label text in valid UTF-8",
  "Tests use a few literal results without special values.",
  ["pkg/marshaler/marshaler.go"], [("point encoding", "pkg/marshaler/marshaler.go:assemblePoint"), ("point decoding", "pkg/marshaler/marshaler.go:disassemblePoint")],
  pkg="marshaler", oracle="a round trip", note="Random results including every class of float64 and label text.")
p("C10", "Encoded PromQL results follow the Prometheus HTTP API",
  "An encoded result is one line of JSON: an object with status success and data of the result's type and content, where a point is a number of seconds with three decimals and a string in decimal or NaN, +Inf or -Inf. A result without samples or series is an empty array, a series without points has an empty array of values, and a metric without labels is an empty object, never null. A result whose time is not a number is an error.",
  ["inputs"], "all results", "Tests compare a few literal documents.",
  ["pkg/marshaler/marshaler.go"], [("assembly", "pkg/marshaler/marshaler.go:assembleInstantQueryResult")],
  pkg="marshaler", oracle="an independent encoder of the documented format", note="Random results; the document is parsed token by token and compared.")
p("C11", "The PromQL decoder takes any bytes; streaming and whole-buffer forms agree",
  "Decoding arbitrary bytes as a query result gives a result or an error, never a panic, a document of an unknown kind or with a point that is not a pair of a number and a numeric string is an error, and a failed decode leaves its target as it was. The streaming encoder and decoder give the same result as the whole-buffer ones for every query result, and every other kind of value goes through the fallback marshaler, unchanged but for a line feed that the whole-buffer form adds.",
  ["inputs"], "all byte strings, in particular mutations of valid documents", "Tests try a few malformed documents.",
  ["pkg/marshaler/marshaler.go"], [("decoder", "pkg/marshaler/marshaler.go:NewDecoder"), ("fallback", "pkg/marshaler/marshaler.go:Marshal")],
  pkg="marshaler", oracle="an independent judgement of the document, and the other form", note="Random documents, structural and byte mutations.")
# ---------------------------------------------------------------- gateway, blackbox, reader, tls
p("C12", "The gateway reports errors and its info in the documented form",
  "A failed PromQL request is answered with the HTTP status of its gRPC code and a JSON object of status error, error type internal and the service's message, and any other failed request with that status and a JSON object of the code and the message. The info endpoint answers any time with the configured version and the current uptime as JSON. Every JSON answer to a read, meta or query ends with a line feed, writes zero values out and uses the names of the API definition.",
  ["inputs"], "all gRPC codes and messages, versions, uptimes and requests",
  "Tests try one error each.",
  ["internal/gateway/gateway.go"], [("error handler", "internal/gateway/gateway.go:httpErrorHandler"), ("info", "internal/gateway/gateway.go:handleInfoEndpoint")],
  pkg="gateway", oracle="the documented mapping", note="Raw HTTPS requests to a real gateway in front of a scripted gRPC server.")
p("C13", "Measured reliability is the share of expected test metrics that came back",
  "The reliability measured is the number of points the query returned for the test metric divided by the number of whole emission intervals in the window; the query asks for that metric of the configured source over the window, at the present less the lag, rounded down to the sample interval. A failed query or an answer without a series is an error.",
  ["inputs", "fault_sequences"], "all intervals, answers and failures", "Tests try one window and one count.",
  ["internal/blackbox/blackbox.go"], [("calculation", "internal/blackbox/blackbox.go:Calculate")],
  pkg="blackbox", oracle="the stated formula in virtual time", note="Random intervals and answers in virtual time.")
p("C14", "The blackbox emits a test metric every interval, and results only when due",
  "Each emission interval exactly one test gauge of 10 ms is written to the configured source with the interval's start as its timestamp, tried up to five times until the cache accepts it, and within a time limit. Measured values are written once, together and unchanged as percentages of that source, unless there are none or the machine is known to be up for less than ten minutes; an uptime that cannot be had does not hold them back.",
  ["inputs", "fault_sequences", "histories"], "all intervals, send failures, metric maps and uptimes", "Tests try one emission and two uptimes.",
  ["internal/blackbox/blackbox.go", "cmd/blackbox/main.go"], [("emission", "internal/blackbox/blackbox.go:StartEmittingTestMetrics"), ("gate", "internal/blackbox/blackbox.go:EmitMeasuredMetrics")],
  pkg="blackbox", oracle="a model of the emissions in virtual time", note="Random failures, uptimes and metric maps in virtual time.")
p("C15", "A PromQL data read returns the complete window or an error",
  "Reading a window for a query returns every matching envelope of the source between start and end, in order and once, however many pages the source needs and whichever reads fail, up to four times in a row, provided the window is older than the walk's delay of a second. When the reads keep failing or the context ends early, the result is an error and not a shorter list, and reads at the same time do not affect each other.",
  ["inputs", "fault_sequences"], "all contents, limits and failure patterns", "Tests read one page.",
  ["internal/promql/data_reader/walking_data_reader.go", "pkg/client/walk.go"], [("walk", "internal/promql/data_reader/walking_data_reader.go:Read")],
  pkg="datareader", race=True, oracle="a model cache with injected faults in virtual time", note="Random contents and failure patterns in virtual time.")
p("C16", "TLS credentials talk only to the named peer of the configured authority",
  "A client with the component's credentials completes a handshake exactly with a server that shows a valid certificate of the configured authority for the expected name, over TLS 1.2 or newer and, under 1.2, one of the two approved cipher suites; it shows its own configured certificate when asked. Files that are missing, mismatched or unreadable when the credentials are made, whatever they held before, are an error, and the end of a component; and an HTTP client of the blackbox that is to skip verification leaves every other client of the process verifying.",
  ["inputs", "configurations"], "all combinations of authorities, names, validity, versions, suites and file faults", "There is no test of a failing handshake.",
  ["internal/tls/tls.go", "internal/blackbox/blackbox.go"], [("configuration", "internal/tls/tls.go:NewMutualTLSConfig"), ("skipped verification", "internal/blackbox/blackbox.go:NewHttpEgressClient")],
  pkg="tls", oracle="the stated acceptance rule", note="Real handshakes over loopback with generated certificates.")
p("C41", "Gateway and blackbox processes do what their environment configures",
  "The gateway process serves its API on the configured address with the configured certificate, passes requests on to the configured cache over mutual TLS, and reports its build's version and the machine's uptime. The blackbox process writes its test metric to the configured cache and, every sample interval, asks for it over gRPC and, if enabled, over HTTP with the configured OAuth2 credentials, and writes each reliability that it could measure under its own name. A process without a required setting or a readable file ends with an error, no process talks to a cache of another name or shows its profile to other hosts, and the secret is not logged.",
  ["configurations", "inputs"], "all settings of the two commands, broken files, answers and failures of the services", "The commands have no tests at all.",
  ["cmd/gateway/main.go", "cmd/gateway/config.go", "cmd/blackbox/main.go", "cmd/blackbox/config.go"], [("wiring", "cmd/blackbox/main.go:main"), ("settings", "cmd/gateway/config.go:LoadConfig")],
  pkg="cmds", oracle="recording fake services around the real processes", note="Real processes over loopback with random settings.")
p("C42", "A gateway request is for the source and the query that its URL names",
  "A read at the gateway asks the cache for the source ID that its path names, and a query runs the text of its first query parameter, and both carry the first value of each other parameter of the API definition. No other parameter changes any of that, however it is spelled, escaped or repeated, in brackets, or as an internal field, and no method, header or body does. A request with a parameter or body that could be taken for one is refused before it reaches the cache, or reaches it without it.",
  ["inputs"], "all source IDs, parameters, their order and repetition, methods and bodies",
  "Tests pass the parameters they know; what the transcoding library makes of others decides who reads what, since requests were authorized by their URL.",
  ["internal/gateway/gateway.go", "pkg/rpc/logcache_v1/egress.pb.gw.go", "pkg/rpc/logcache_v1/promql.pb.gw.go"],
  [("parameters", "internal/gateway/gateway.go:keepNames"), ("transcoding", "pkg/rpc/logcache_v1/egress.pb.gw.go:request_Egress_Read_0")],
  pkg="gateway", oracle="the request that the URL names, at a recording backend", note="Raw HTTPS requests to a real gateway in front of a recording gRPC server.")
# ---------------------------------------------------------------- store
SHIM = "the package is built with stand-ins for its missing dependencies"
p("C48", "The gateway serves requests independently, and outlives its cache",
  "Whatever requests are made at once, over HTTP/1 and HTTP/2, by the client, which may be shared, or by URL, each is passed on once and gets the answer or the error that the cache gave to it and no other, and none waits for another that the cache does not answer. A request that its caller gives up ends, is ended at the cache too, and ends no other. While the cache is away requests soon fail as unavailable, and when it is back they succeed with no other process started again; handlers registered for an endpoint dial it, and close that connection when their context ends.",
  ["schedules", "inputs", "fault_sequences"], "all mixtures of requests, callers that give up, and restarts of the cache, over an unlimited number of callers", "Tests make one request at a time, and never take the cache away.",
  ["pkg/rpc/logcache_v1/egress.pb.gw.go", "pkg/rpc/logcache_v1/promql.pb.gw.go", "internal/gateway/gateway.go", "pkg/client/client.go"],
  [("handlers", "pkg/rpc/logcache_v1/egress.pb.gw.go:RegisterEgressHandlerClient"), ("query handlers", "pkg/rpc/logcache_v1/promql.pb.gw.go:RegisterPromQLQuerierHandlerClient"), ("client", "pkg/client/client.go:Read")],
  pkg="traffic", race=True, timeout=600, oracle="a backend whose answer is the request itself", note="Real gateway and clients over loopback, with a backend that is slow, fails, hangs and goes away.",
  observe=["answers and errors at each caller; requests, connections and cancellations at the cache"])
p("C17", "A read from the store returns exactly the matching stored envelopes",
  "A read of a source returns its stored envelopes with start <= timestamp < end, of any of the asked types if some are asked for, and matching the name filter, in ascending order of timestamp and, within one timestamp, of arrival, or in the reverse order when asked: the first of them up to the limit, exceeded only to complete a group of one timestamp, and none for limit 0. A name filter keeps counters and timers by their name, reduces a gauge to its metrics that match, and drops logs and events. Every envelope put is there, with all its fields, unless eviction or pruning removed it, also when several share a timestamp.",
  ["inputs", "histories"], "all sequences of puts and reads over a few sources, timestamps, kinds and names", "Tests store a few envelopes in one order.",
  ["internal/cache/store/store.go"], [("tree walk", "internal/cache/store/store.go:Get"), ("insertion", "internal/cache/store/store.go:insertOrSwap")],
  pkg="store", oracle="a reference store", note="Random histories against a reference store; " + SHIM + ".",
  observe=["the envelopes returned by reads"])
p("C18", "Per-source capacity and pruning remove only the oldest, and are accounted",
  "A source never keeps more than its maximum: a put to a full source removes one envelope of its oldest timestamp first. A pruning removes, of the whole store, as many of the oldest envelopes as the memory consultant asks for when shown the number stored. The expired counter counts exactly the removed envelopes, the ingress counter the puts, the egress counter the envelopes read, the size gauge shows the number stored, and the cache period after a pruning, and after a put until the next removal by capacity, is the age of the oldest one stored.",
  ["histories"], "all sequences of puts and prunings", "Tests overflow one source once.",
  ["internal/cache/store/store.go"], [("truncate", "internal/cache/store/store.go:truncate"), ("capacity", "internal/cache/store/store.go:insertOrSwap")],
  pkg="store", oracle="a reference store with eviction", note="Random histories in virtual time against the reference; " + SHIM + ".",
  observe=["reads, metrics and consultant calls"])
p("C19", "Meta describes each source's content",
  "Meta lists exactly the sources that have stored envelopes, each with the number stored, the oldest and newest timestamp stored, and the number of its envelopes removed by capacity or pruning since it last had none.",
  ["histories"], "all sequences of puts, evictions and meta calls", "Tests check one or two sources.",
  ["internal/cache/store/store.go"], [("meta", "internal/cache/store/store.go:Meta")],
  pkg="store", oracle="a reference store", note="Random histories against the reference; " + SHIM + ".",
  observe=["meta answers"])
p("C20", "The store keeps its guarantees under concurrent use",
  "With concurrent puts, reads, meta calls and prunings there are no data races, panics or deadlocks, and every read is in order, without duplicates and without envelopes that were never put, and holds everything whose put had returned when nothing can have been removed. Once all have finished, the number of envelopes put is the number stored plus the number counted as expired, and reads, meta and gauges agree on what is stored.",
  ["schedules"], "all interleavings, sampled", "Tests are sequential.",
  ["internal/cache/store/store.go"], [("locks", "internal/cache/store/store.go")],
  pkg="store", race=True, oracle="invariants over the history, with the race detector", note="Random concurrent programs under the race detector; " + SHIM + ".",
  observe=["reads, meta and metrics"])
p("C21", "Pruning is asked for in proportion to the memory in excess",
  "The consultant asks to prune nothing while the heap is within the configured percentage of the total memory, and otherwise for the share of the stored envelopes that the excess makes of the heap, rounded down. It reports the heap's percentage each time it is asked.",
  ["inputs"], "all percentages, uses and counts on machines of up to 1 TB", "Tests try four points.",
  ["internal/cache/store/prune_consultant.go"], [("ratio", "internal/cache/store/prune_consultant.go:GetQuantityToPrune")],
  pkg="store", oracle="the stated formula in exact arithmetic", note="Random inputs against exact arithmetic, with a tolerance of one where a result is within 1e-9 of an integer; " + SHIM + ".",
  observe=["the quantity and the gauge"])
p("C46", "A node keeps within its share of the memory, and does not empty itself for it",
  "When a node's heap grows beyond the configured percentage of the machine's memory, the node lets go of its oldest envelopes until it is within, and then comes to rest: it keeps the newest, at least those whose text takes a fifth of its share, however long nothing more is written. A node that never gets near its share lets go of nothing. What it measures and publishes is the heap in use and the available and total memory at that time.",
  ["inputs", "histories", "configurations"], "all loads and shares of some ten MB, and all growths and shrinkages of the heap", "Tests give the store a consultant that asks once; none has real memory in it.",
  ["internal/cache/memory_analyzer.go", "internal/cache/store/store.go", "internal/cache/store/prune_consultant.go", "internal/cache/log_cache.go"],
  [("measurement", "internal/cache/memory_analyzer.go:Memory"), ("truncate", "internal/cache/store/store.go:truncate")],
  pkg="memory", timeout=600, oracle="the envelopes written, the share, and the runtime's own figures", note="Real nodes, each in a process of its own with a small share, under random loads, and the analyzer against the runtime and /proc/meminfo; " + SHIM + ".",
  observe=["gauges, meta"])
p("C22", "Reads of the local store are validated and get their defaults",
  "A read whose end is before its start, whose limit is beyond 1000 or below 0, whose name filter is no regular expression, or that asks for an unknown envelope type is an error and does not reach the store. A missing end means now, a missing limit 100, and type ANY no restriction; everything else reaches the store as asked, and the answer holds just what the store returned. The answer to a meta request is the store's meta.",
  ["inputs"], "all requests", "Tests try a few requests.",
  ["internal/routing/local_store_reader.go"], [("validation", "internal/routing/local_store_reader.go:Read")],
  pkg="routing", oracle="the stated rules with a recording store", note="Random requests against a recording store; " + SHIM + ".",
  observe=["calls of the store and answers"])
# ---------------------------------------------------------------- routing
p("C23", "Lookups route every source to exactly the nodes that own its hash",
  "The lookup of a source gives exactly the nodes whose ranges of the latest assignment contain the source's hash, bounds included, each once per node; an assignment names its nodes by their known addresses. With a static table every hash belongs to exactly one node, and the nodes' shares are even. Lookups concurrent with new assignments answer by one assignment or the other, without data races.",
  ["inputs", "histories", "schedules"], "all range assignments over known addresses and all source ids", "Tests use two or three ranges.",
  ["internal/routing/routing_table.go", "internal/routing/static_lookup.go"], [("lookup", "internal/routing/routing_table.go:Lookup")],
  pkg="routing", race=True, oracle="a direct evaluation of the ranges", note="Random assignments against the direct evaluation; " + SHIM + ".",
  observe=["indices returned by lookups"])
p("C24", "Ingress delivers each envelope to the nodes that own it",
  "Each envelope of a send request is sent once, unchanged and in order per source, to every node its source routes to and to no other: to the local store directly, and to other nodes in requests marked local-only with the caller's context. A request marked local-only is stored locally as a whole and its error returned. A node that fails does not keep the others from getting theirs, and a request without envelopes is answered without an error.",
  ["inputs", "fault_sequences"], "all batches, tables and failures", "Tests send a few envelopes.",
  ["internal/routing/ingress_reverse_proxy.go"], [("fan out", "internal/routing/ingress_reverse_proxy.go:Send")],
  pkg="routing", oracle="the routing function and recorded node calls", note="Random batches, tables and failing nodes; " + SHIM + ".",
  observe=["send requests at each node"])
p("C25", "Egress reads from an owner and merges the meta of all nodes",
  "A read goes to the local node when it owns the source and else to one that does, with the request and the caller's context, and that node's answer or error is returned; a source without owner is an unavailable error. Meta is the union of the answers of all nodes that answer, and the error only if all fail; a local-only request is answered by the local node alone. An answer is kept no longer than the configured time, and errors are not kept.",
  ["inputs", "fault_sequences", "histories"], "all tables, answers and failures", "Tests use two nodes.",
  ["internal/routing/egress_reverse_proxy.go"], [("selection", "internal/routing/egress_reverse_proxy.go:Read"), ("meta cache", "internal/routing/egress_reverse_proxy.go:Meta")],
  pkg="routing", race=True, oracle="the routing function and recorded node calls", note="Random tables, answers and failures in virtual time; " + SHIM + ".",
  observe=["requests at each node and answers"])
p("C26", "Batched ingress loses nothing it does not count",
  "Every envelope given to the batching client, from one goroutine or many, is sent on once, in each sender's order, in batches within the configured size and marked local-only unless configured otherwise, or is counted as dropped. While the node answers promptly, an envelope is sent when a batch is full or the configured interval has passed; a node that hangs delays but does not lose up to ten thousand waiting envelopes.",
  ["histories", "schedules", "fault_sequences"], "all send sequences and interleavings", "Tests send a fixed series.",
  ["internal/routing/batched_ingress_client.go"], [("batching", "internal/routing/batched_ingress_client.go:start")],
  pkg="routing", race=True, oracle="conservation over the history", note="Random send histories with failures and hangs, in virtual time and with real goroutines; " + SHIM + ".",
  observe=["batches at the node, dropped counter"])
p("C27", "A node's ranges follow the add, remove and set requests",
  "An add request appends a range to a node's list and a remove request takes one copy of it away; the listed ranges are those the sequence of requests leaves, and a list once returned never changes. A set request reaches the range setter unchanged, and a request without a range is an error. This holds without data races when requests are concurrent.",
  ["histories", "schedules"], "all request sequences", "Tests try each request once.",
  ["internal/routing/orchestrator.go"], [("range list", "internal/routing/orchestrator.go")],
  pkg="routing", race=True, oracle="a model of the list", note="Random request sequences and concurrent programs; " + SHIM + ".",
  observe=["listed ranges"])
p("C28", "The scheduler assigns every hash range, and to live nodes",
  "On a cluster whose nodes answer, the leader's first round assigns every range to as many nodes as the replication factor asks for, or to all nodes if they are fewer, and tells every node exactly the ranges that the nodes list; at a factor of 1 no node gets more than its even share, rounded up. After failures, hangs, restarts and changes of leadership the same is so again within some rounds, of which each interval has one, for the nodes that answer then, those of the others being taken over; with a factor of 1, or at least as many as nodes, it then stays as it is. A scheduler that does not lead changes and tells nothing.",
  ["histories", "fault_sequences"], "all cluster sizes, counts, factors, failures and changes of leadership; of factors in between, no claim that the assignment stays put, as its spread is the orchestrator's", "Tests use two or three nodes that always answer.",
  ["internal/scheduler/scheduler.go"], [("terms", "internal/scheduler/scheduler.go:Start")],
  pkg="scheduler", race=True, oracle="coverage and consistency invariants over the nodes' lists and tables", note="Random clusters of fake nodes with faults and leader changes, in virtual time; " + SHIM + ", among them a rewritten orchestrator.",
  observe=["ranges that nodes list, tables they are told, calls they get"])
p("C39", "What is written to a cluster can be read from any of its nodes",
  "Once all nodes of a cluster reach each other and were told the same ranges that cover all hashes, an envelope that any node accepts is returned once by reads of its source at every node, is kept only by the nodes that own its hash, and is in every node's meta with the right counts, and a query gives the same at every node. When a node goes it takes with it what it alone owned, of which reads are errors and not empty answers, and nothing else; a read before any ranges were told is an error too. With a scheduler running, whatever nodes went or came back, after some rounds everything newly written is again read at every node that runs.",
  ["inputs", "configurations", "histories", "fault_sequences"], "all cluster sizes, ranges, replication factors, sources, entry nodes, and orders of nodes that go and come; not what is written while nodes do not reach each other or ranges change, which may be lost", "Tests use one cluster of two nodes.",
  ["internal/cache/log_cache.go", "internal/routing/static_lookup.go"], [("assembly", "internal/cache/log_cache.go:Start")],
  pkg="cluster", race=True, oracle="the written multiset and the owners by the ranges told", note="Real nodes and a real scheduler over loopback; " + SHIM + ".", timeout=600,
  observe=["reads, meta and queries at every node"])
p("C47", "Batches and answers of many megabytes pass like small ones",
  "Envelopes of up to 64 KB are taken in batches of up to 512 by any node, and by the nozzle, and are forwarded to the node that owns them. A read of up to 1000 of them, a walk over them, the meta of 100000 sources and a query with hundreds of thousands of points give at every node, and through the gateway, everything that is there, and no error.",
  ["inputs", "configurations"], "all sizes and numbers of envelopes, series and sources up to 64 MB in one message", "Tests send and read a few small envelopes.",
  ["internal/cache/log_cache.go", "internal/gateway/gateway.go", "pkg/client/client.go"], [("server and peers", "internal/cache/log_cache.go:setupRouting"), ("gateway", "internal/gateway/gateway.go:listenAndServe"), ("client", "pkg/client/client.go:WithViaGRPC")],
  pkg="cluster", timeout=600, oracle="the written envelopes", note="Real nodes, nozzle and gateway over loopback; " + SHIM + ".",
  observe=["reads, walks, meta and queries at every node and through the gateway"])
p("C49", "What a node counts adds up with what happened to it",
  "On every node of a cluster, the ingress counts each envelope that it was given to keep once, wherever it was sent to, the store size what it keeps, and the expired ones the difference; the egress counts the envelopes that it answered reads with, and not what it passed on of other nodes. Nothing counts as dropped between nodes that are up, no query that ends in time, well-formed or not, counts as a timeout, and query times and the share of memory in use are possible ones.",
  ["inputs", "histories", "configurations"], "all cluster sizes, limits per source, batches, entry nodes and reads, while nodes are up and below their share of the memory", "Tests look at single counters of single packages, after one operation.",
  ["internal/cache/store/store.go", "internal/cache/log_cache.go", "internal/promql/promql.go"], [("store", "internal/cache/store/store.go:insertOrSwap"), ("reads", "internal/cache/store/store.go:Get"), ("assembly", "internal/cache/log_cache.go:setupRouting"), ("queries", "internal/promql/promql.go:InstantQuery")],
  pkg="cluster", timeout=600, oracle="counts of what was written and read, by owner", note="Real nodes over loopback with recording registries; " + SHIM + ".",
  observe=["the metrics of each node"])
p("C50", "A follower of a live source gets every envelope once, wherever it reads",
  "While any writers send to any nodes of a cluster, with clocks as coarse as they like, a walk without an end hands its visitor every envelope of its source and types from its start on exactly once, unchanged and in timestamp order, as long as none takes longer to reach its owner than the walk's delay. It does so whatever its limit, whichever nodes or gateway its reads go to, a different one each time too, whichever of them fail, and however many others follow the same source.",
  ["inputs", "schedules", "fault_sequences"], "all numbers of nodes, writers and followers, limits, types, ways and failing reads; at most some thousand envelopes, from about the present", "Tests walk a source that nobody writes to meanwhile, at one node.",
  ["pkg/client/walk.go", "internal/cache/store/store.go", "internal/routing/batched_ingress_client.go"], [("next start and delay", "pkg/client/walk.go:Walk"), ("whole groups of a timestamp", "internal/cache/store/store.go:Get"), ("forwarding", "internal/routing/ingress_reverse_proxy.go:Send")],
  pkg="cluster", race=True, timeout=600, oracle="the set of what was sent", note="Real nodes over loopback, concurrent writers and followers; a case in which the machine kept an envelope for longer than the delay decides nothing; " + SHIM + ".",
  observe=["what the visitors got"])
# ---------------------------------------------------------------- nozzle and syslog
p("C29", "The nozzle forwards what the stream delivers, in batches, for its selectors",
  "The stream is asked once for exactly the selected kinds, under the shard's id and with preferred tags. Every envelope that it delivers is sent to the cache unchanged in exactly one request of at most 512, in the stream's order within it, and within a second or so if requests are answered at once; a request that fails or is not answered for seconds is given up and counted, and those after it go on. Only when the cache is too slow for the stream are envelopes lost, none is sent twice even then, and the counters give what was delivered and what the cache acknowledged.",
  ["histories", "fault_sequences", "configurations"], "all streams of envelopes, selections of known kinds, and behaviours of the cache", "Tests forward a fixed series to a cache that answers.",
  ["internal/nozzle/nozzle.go"], [("batching", "internal/nozzle/nozzle.go:envelopeBatcher"), ("selectors", "internal/nozzle/nozzle.go:buildBatchReq")],
  pkg="nozzle", race=True, oracle="conservation over the history of requests", note="Random streams, selections and failures in virtual time, and overload; " + SHIM + ".",
  observe=["the stream's request, requests to the cache, counters"])
p("C30", "Syslog messages become the envelopes they describe; bad ones do no harm",
  "A well-formed message becomes the log, counter, gauge, timer or event it describes, with its timestamp, its app name as source, its instance and, for a log, the trimmed text, the type and the source type; those of one connection arrive in their order and are counted. One that describes nothing (no app name, process ID or time, an unknown kind, a number that is none) is counted as invalid and skipped, and other bytes are counted and end no more than their own connection, as does a connection without a whole message for the idle timeout, and not before; no failure of the cache, silent or slow connection holds up the others. Clients need TLS 1.2 with a supported cipher suite.",
  ["inputs", "schedules", "fault_sequences"], "all messages of RFC 5424 in octet counting with at most one structured data element and a time that an envelope can hold, and other bytes", "Tests send one message per kind.",
  ["internal/syslog/server.go"], [("conversion", "internal/syslog/server.go:convertToEnvelope"), ("connections", "internal/syslog/server.go:handleConnection")],
  pkg="syslog", race=True, oracle="a round trip from generated envelopes", note="Random messages, endings and TLS offers of concurrent connections to a real server over loopback; " + SHIM + ", among them an adapted syslog parser.",
  observe=["envelopes sent, counters, connections"])
# ---------------------------------------------------------------- promql
p("C31", "PromQL selectors see exactly the samples their matchers describe",
  "A selector's series are those of the sources it names by equality or in a list, one for each set of labels (tags, source_id and instance_id) that has counters, gauges or timers of its metric name and that all its other matchers accept, a missing label counting as empty. A sample is a counter's total, a gauge's value or a timer's duration, at the envelope's time rounded down to the second; an instant shows a series' latest sample of the five minutes up to it, at each step of a range query too, and a range selector all samples of its range. A selector without a source, a malformed query, a string, a failed data read, a calculation without a definite result, and a query that takes longer than the query timeout or its caller allows are errors.",
  ["inputs", "fault_sequences"], "all contents and selectors with matchers of all four kinds, offsets and ranges; no claim on samples that lie exactly on the far border of a range or lookback, on which of several samples of one second an instant shows, nor on empty tags",
  "Tests use a few series and equality matchers.",
  ["internal/promql/promql.go"], [("querier", "internal/promql/promql.go:Select"), ("series", "internal/promql/promql.go:getSeriesID")],
  pkg="promql", oracle="a reference evaluation of selectors", note="Random contents and selectors through instant and range queries; " + SHIM + ", among them a rewritten PromQL engine.",
  observe=["query results"])
p("C32", "Metric names are made queryable without confusion",
  "Any metric can be queried under its name with every character that is no ASCII letter, digit or underscore, and a leading digit, replaced by an underscore; a query of another name does not find it.",
  ["inputs"], "all names", "Tests try a few names.",
  ["internal/promql/promql.go"], [("sanitization", "internal/promql/promql.go:SanitizeMetricName")],
  pkg="promql", oracle="the stated replacement, rune by rune", note="Random names, converted and queried; " + SHIM + ".",
  observe=["converted names and query results"])
p("C33", "The sources of a query are found and replaced soundly",
  "The source ids reported for a query are those that its selectors name by equality or in a list, and running the query reads no others. Replacing ids turns each equality with an id that has replacements, and each list, into an equality or list of all replacements, in order, and changes nothing else. A text that is no query is an error for both.",
  ["inputs"], "all query expressions", "Tests try a few queries.",
  ["internal/promql/promql.go"], [("visitor", "internal/promql/promql.go:ExtractSourceIds"), ("replacement", "internal/promql/promql.go:ReplaceSourceIdSets")],
  pkg="promql", oracle="generated expressions with known sources", note="Random expressions; " + SHIM + ", among them a rewritten PromQL parser.",
  observe=["ids, replaced queries and data reads"])
p("C34", "Times and steps of a query mean what they say",
  "A time in decimal seconds, to the millisecond, or as RFC 3339 selects the instant it names, and no time means the present second. A range query evaluates at its start and every step after it up to its end, for steps in decimal seconds or as a number with a unit from ms to y. Texts that are neither, are no finite number, or overflow, and steps below a millisecond, are errors.",
  ["inputs"], "all texts; times from 1970 to 2262", "Tests try a few texts.",
  ["internal/promql/parsing.go", "internal/promql/promql.go"], [("time parsing", "internal/promql/parsing.go:ParseTime"), ("step parsing", "internal/promql/parsing.go:ParseStep")],
  pkg="promql", oracle="exact arithmetic", note="Random texts through instant and range queries; " + SHIM + ".",
  observe=["times of results"])
# ---------------------------------------------------------------- auth
p("C35", "Users get the data of their sources, and of no others",
  "A read through the auth proxy reaches the gateway only if the token is valid and its user is an admin or may read that very source, and then reads no other; otherwise the answer is 404. Each source that a query names stands for itself and for the apps of that name, less what the user may not read; the query reads only these, and is a 404 if nothing is left of one, or the token is not valid, and a 400 if it is malformed or names no source. A meta answer holds those sources of the cache that the user may read, all of them for an admin, and without a valid token nothing; other paths, but for the info, reach nothing.",
  ["inputs"], "all users, tokens, paths, queries and parameters", "Tests try one source each.",
  ["internal/auth/cf_auth_middleware.go", "internal/promql/promql.go", "internal/gateway/gateway.go"], [("middleware", "internal/auth/cf_auth_middleware.go:Middleware"), ("replacement", "internal/promql/promql.go:ReplaceSourceIdSets")],
  pkg="auth", oracle="the users' sources against a recording cache behind the real proxy, gateway and query engine", note="Random users, paths, parameters and queries over TLS through the real proxy and gateway to a cache that runs the real engine and records reads; " + SHIM + ".",
  observe=["status and body of answers, reads of the cache"])
p("C36", "Tokens are accepted only when the authority signed them and they are current",
  "A token is accepted exactly when it is signed with RS256 by the key that the authority listed last under the token's key ID, its claims can be read and it has not expired; it makes an admin exactly with the scope doppler.firehose or logs.admin. A token with an unknown key ID, and one whose signature fails, has the keys asked for again, but no more often than the configured interval, and a key that is no longer listed is forgotten. Any other bytes are an error, failures of the authority leave the known keys as they are, and no response of the authority is left open.",
  ["inputs", "histories", "schedules", "fault_sequences"], "all tokens, key lists, rotations and failures of the authority; of a list with a bad key, no claim but that those before it become known; the interval is claimed for requests one after another", "Tests try a few tokens.",
  ["internal/auth/uaa_client.go"], [("verification", "internal/auth/uaa_client.go:Read"), ("rotation", "internal/auth/uaa_client.go:RefreshTokenKeys")],
  pkg="auth", race=True, oracle="a model of the keys and the stated rule over generated tokens", note="Random tokens, rotations and failures in virtual time, and concurrent readers; " + SHIM + ".",
  observe=["accepted tokens and their rights, requests to the authority"])
p("C37", "Who may read what is what the Cloud Controller last said for that token",
  "A user may read a source exactly when the apps and service instances, of all pages, that were last listed for the user's token have it; a list is asked for when none is kept, when the kept one is as old as configured, and up to three times more when it lacks a source. A list that fails at any page counts as empty; app names give the apps listed under them, or nothing if that fails. Requests carry the user's token, and further pages are asked from the configured address, whatever their links say; no token gets another's list, lists that have expired are forgotten in time, and no response is left open.",
  ["histories", "schedules", "fault_sequences"], "all histories of listings, failures, requests and time", "Tests try one user and two pages.",
  ["internal/auth/capi_client.go"], [("cache", "internal/auth/capi_client.go:IsAuthorized"), ("pages", "internal/auth/capi_client.go:doPaginatedResourceRequest")],
  pkg="auth", race=True, oracle="a model of the lists and of the requests they need", note="Random histories in virtual time, and concurrent requests for several tokens; " + SHIM + ".",
  observe=["answers, requests to the controller, number of lists kept"])
p("C38", "Each request writes one access log line that describes it",
  "A request, whether it is then admitted or refused, adds one line to the access log, which gives its time, method, path and query, request ID, the client's address (the first that the request was forwarded for, else the connection's) and the configured destination. Nothing in a request can end the line, or forge a field or an extension key. A log that cannot be written does not keep the request from being handled, and the lines of concurrent requests do not mix.",
  ["inputs", "schedules", "fault_sequences"], "all requests that the HTTP server hands to a handler", "Tests log one request.",
  ["internal/auth/access_log.go", "internal/auth/access_middleware.go"], [("format", "internal/auth/access_log.go:String"), ("middleware", "internal/auth/access_middleware.go:ServeHTTP")],
  pkg="auth", race=True, oracle="a parser of the line", note="Random requests as raw bytes, with hostile characters in every part; " + SHIM + ".",
  observe=["the log's lines"])
p("C40", "The auth proxy forwards only what it admits, and only to a gateway it trusts",
  "A request that the middleware admits reaches the gateway, and no other host that the request may name, once, with the same method, path, query, end-to-end headers and body, and the gateway's status, headers and body come back, long or slow as they may be. A request that it refuses does not reach the gateway. A gateway whose certificate is not of the configured authority, current and for its address gets no request, and the answer is 502; clients need TLS 1.2 with a supported cipher suite, or 1.3.",
  ["inputs", "fault_sequences", "configurations"], "all requests, certificates and TLS offers", "Tests pass one request.",
  ["internal/cfauthproxy/cf_auth_proxy.go"], [("proxy", "internal/cfauthproxy/cf_auth_proxy.go:Start"), ("trust", "internal/cfauthproxy/cf_auth_proxy.go:NewTransportWithRootCA")],
  pkg="auth", oracle="a recording gateway", note="Random raw requests, gateway certificates and TLS offers over loopback; " + SHIM + ".",
  observe=["requests at the gateway, answers"])
# ---------------------------------------------------------------- processes
p("C43", "The other processes do what their environment configures, and trust no others",
  "Each process uses the addresses, limits, intervals, names, certificates and files of its environment: a node its share of memory, envelopes per source and query time; the scheduler its number of ranges and factor, and only while the leadership endpoint answers 200; the proxy its gateway, over TLS whatever the scheme, its cache times and its log file; the nozzle its shard and selectors; the syslog server its port and idle time, and both leave the routing to the node. None sends anything to a peer whose certificate is not of the configured authority and name (unless told to skip that for the platform), and one that lacks a required setting, or cannot use a file or value, ends with an error, as does the proxy without the authority's keys; the secret is not reported, nor is the profile shown to other hosts. A leadership endpoint that hangs, and file descriptors that run out, stop nothing for good, and no connection is left open.",
  ["configurations", "fault_sequences"], "settings of the five commands that a machine can try in seconds, broken files, answers and failures of the peers", "The commands have no tests at all.",
  ["cmd/log-cache/main.go", "cmd/log-cache/config.go", "cmd/scheduler/main.go", "cmd/scheduler/config.go", "cmd/cf-auth-proxy/main.go", "cmd/cf-auth-proxy/config.go", "cmd/nozzle/main.go", "cmd/nozzle/config.go", "cmd/syslog-server/main.go", "cmd/syslog-server/config.go"],
  [("wiring", "cmd/cf-auth-proxy/main.go:main"), ("settings", "cmd/scheduler/config.go:LoadConfig"), ("leadership", "cmd/scheduler/main.go:main")],
  pkg="procs", run="TestC43", timeout=600, oracle="recording fake peers around the real processes", note="Real processes over loopback with random settings; " + SHIM + ".",
  observe=["requests at the peers, answers, exits and output of the processes"])
p("C44", "What the platform delivers is read by whom it belongs to, through all processes",
  "With all processes running, every envelope of the log provider's stream and every message sent to the syslog server, whichever node it is handed to, is soon read through the auth proxy, unchanged, once and in order, by an admin and by the user whose source it is, and is found by the user's meta and queries, the latter also by the app's name. Another user gets none of it. After any one process has ended and has been started again, this holds again for what is delivered from then on, with no other process started again.",
  ["histories", "configurations", "fault_sequences"], "deliveries by both ways for several sources and users, to two nodes, and restarts of any process", "No test runs the processes together; the end-to-end tests of the repository use its library in one process.",
  ["cmd/syslog-server/main.go", "cmd/nozzle/main.go", "cmd/log-cache/main.go", "cmd/gateway/main.go", "cmd/cf-auth-proxy/main.go", "cmd/scheduler/main.go", "internal/routing/batched_ingress_client.go"],
  [("syslog ingress", "cmd/syslog-server/main.go:main"), ("routing", "internal/routing/ingress_reverse_proxy.go:Send")],
  pkg="procs", run="TestC44", timeout=600, oracle="the envelopes delivered and the users' sources", note="Eight real processes over loopback between a fake platform and a client; " + SHIM + ".",
  observe=["answers to reads, meta and queries through the proxy"])
p("C45", "API messages and services have the wire form of their definitions",
  "Each message of the API is written as the protobuf bytes and the JSON that its definition in api/v1 says, field by field, with the field's number and type; any form of it on the wire or in JSON is read as that message, whatever the order of its fields, and unknown fields are kept; bytes that are none are an error. Clones, merges and resets are those of the fields. A client's call, with its options, is one to the path of its service and method with those bytes, and a call there reaches that method of a server through its interceptors, and gets its answer, or its error with code and message.",
  ["inputs"], "all messages of the API but for the envelopes within, which are another API's; all their forms on the wire; not the sign of zero",
  "Both ends of every test are the same generated code, which agrees with itself whatever it writes; other clients and older nodes do not.",
  ["pkg/rpc/logcache_v1/egress.pb.go", "pkg/rpc/logcache_v1/ingress.pb.go", "pkg/rpc/logcache_v1/orchestration.pb.go", "pkg/rpc/logcache_v1/promql.pb.go", "api/v1/egress.proto"],
  [("fields", "pkg/rpc/logcache_v1/egress.pb.go:ReadRequest"), ("services", "pkg/rpc/logcache_v1/orchestration.pb.go:RegisterOrchestrationServer")],
  pkg="wire", oracle="an independent encoder and decoder of the definitions", note="Random messages in random forms, and calls over gRPC between the generated code and bytes.")
