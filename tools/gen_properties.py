#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one record per property).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Batched loading gives every caller its own keys' values, loaded once",
 "However many callers ask a data loader for however many overlapping keys at whatever times, every caller is answered promptly with exactly the values (or the error) the upstream produced for its own keys, never those of another key. Requests that arrive within one batching window share one upstream load in which each distinct key appears exactly once, no batch exceeds the configured maximum plus the keys of the request that filled it, and no request is lost, answered twice or left waiting. A value held by the loader's cache is served without another load only until it is cleared, and caching can be switched off and on without changing any answer.",
 ["schedules","histories","fault_sequences"],
 "All interleavings of concurrent single- and multi-key loads, feeds, clears, cache enable/disable, loader failures, delays and cancelled callers; all batch sizes and delays.",
 "The unit tests run a handful of fixed, mostly uniform schedules with one outcome each; batching, wake-up and cache faults appear only for particular arrival orders, key overlaps, failures and cancellations.",
 ["src/core/data_loader/data_loader.rs","src/core/data_loader/storage.rs","src/core/data_loader/factory.rs","src/core/data_loader/loader.rs","src/core/http/data_loader.rs"],
 [("per-type request queue, delayed or immediate dispatch","src/core/data_loader/data_loader.rs"),("pluggable cache storage","src/core/data_loader/storage.rs")],
 ["keys passed to the loader per batch","values returned to each caller"])

p("C02","In-flight request deduplication is single-flight, faithful and cancellation-safe",
 "While a computation for a key is in flight, every further request for the same key joins it instead of starting another, and all of them receive its one result; requests for different keys never share a result. A cancelled or failed computation never strands or poisons the others waiting for the key: some caller completes the work and everybody still interested gets an answer. After the result is delivered, a new request computes afresh unless the deduplicator was asked to persist results, in which case it is never computed again.",
 ["schedules","histories","fault_sequences"],
 "All interleavings of starts, completions and drops of callers over any set of keys, on one or many threads.",
 "The tests try a few fixed interleavings with sleeps; lost wake-ups and stale results show up only in particular races between drop, completion and a new arrival.",
 ["src/core/data_loader/dedupe.rs","src/core/ir/eval_io.rs","src/core/ir/eval.rs"],
 [("shared broadcast with weak ownership","src/core/data_loader/dedupe.rs")],
 ["number of computations started per key","result per caller"])

p("C03","The in-memory cache returns the freshest unexpired value for exactly its key",
 "A cache read returns the value most recently stored under that exact key while its own time to live has not elapsed, and nothing once it has elapsed. Entries with different keys or different lifetimes never affect one another, whatever their order of insertion, overwriting or expiry, and the reported hit ratio equals hits over lookups. Fields marked cacheable therefore repeat an upstream request only after the configured lifetime and never serve one argument's or parent's value for another.",
 ["histories","schedules","inputs"],
 "All sequences and interleavings of stores, reads, overwrites and waits with arbitrary keys, values and lifetimes.",
 "The tests store one or two entries; errors in expiry arithmetic, overwrite handling and key identity need multi-step histories around the lifetime boundary.",
 ["src/core/cache/cache.rs","src/cli/runtime/mod.rs","src/core/ir/eval.rs","src/core/blueprint/timeout.rs"],
 [("per-entry time to live","src/core/cache/cache.rs"),("cache key built from operation, parent value, arguments and headers","src/core/ir/eval.rs")],
 ["value per read","upstream requests per field evaluation"])

p("C04","The upstream HTTP cache stores and returns responses faithfully",
 "A response put in the HTTP cache comes back for the same key with the same status, headers, version, URL, body and caching policy; a deleted or never-stored key yields nothing and keys never interfere. With the cache enabled, repeated upstream requests see the same response they would without it unless the response's own freshness lifetime allows reuse, and responses marked uncacheable are never reused. The number of retained entries is bounded by the configured size.",
 ["histories","inputs","configurations"],
 "All sequences of put, get, delete with arbitrary keys, response contents and cache sizes; all cache-control directives on a live upstream.",
 "One test stores one response; faithfulness must hold for arbitrary bodies, headers, eviction orders and freshness directives.",
 ["tailcall-http-cache/src/cache.rs","src/cli/runtime/http.rs"],
 [("bounded in-memory cache manager","tailcall-http-cache/src/cache.rs"),("caching middleware on the native client","src/cli/runtime/http.rs")],
 ["cache manager results","requests reaching a local upstream server"])

p("C05","Only identical upstream requests are coalesced",
 "Two upstream requests share one cached or in-flight result if and only if they are the same request: same method, same target URL, same body and the same values for the headers that are designated as significant. Equality is independent of the order in which significant headers are listed and is consistent with hashing, and headers that are not significant never split otherwise identical requests. The identity computed for templated requests changes whenever the rendered method, URL, header or body changes.",
 ["inputs"],
 "All pairs of requests that differ in one or several components, and all choices of significant headers.",
 "Tests compare a few pairs; the guarantee is about every pair, including near-equal ones whose components shift between fields.",
 ["src/core/http/data_loader_request.rs","src/core/http/request_template.rs","tailcall-hasher/src/lib.rs","src/core/graphql/request_template.rs","src/core/grpc/request_template.rs","src/core/grpc/data_loader_request.rs"],
 [("request identity for loader keys","src/core/http/data_loader_request.rs"),("cache keys of request templates","src/core/http/request_template.rs")],
 ["equality and hash of request keys","number of upstream requests"])

p("C06","Batched upstream responses are split correctly among the entities that asked",
 "When a list of entities is resolved through one grouped upstream request, that request asks for each distinct key exactly once and every entity receives exactly the items whose grouping key equals its own, in the order the upstream sent them: one item for a single-valued field, all of them for a list, none when the upstream has none. The result is the same as if each entity had been fetched with its own request. This holds for query-parameter and request-body grouping, for nested grouping paths, for string and numeric keys, and for duplicated, missing and unrelated items.",
 ["inputs","schedules","configurations"],
 "All multisets of entities, all upstream responses (order, duplicates, gaps, key types), all grouping paths and batching settings.",
 "Specs fix a few tidy responses; misattribution needs shuffled, duplicated or missing keys, or keys of differing types.",
 ["src/core/http/data_loader.rs","src/core/http/transformations","src/core/config/group_by.rs","src/core/json/json_like.rs","src/core/json/json_like_list.rs","src/core/grpc/data_loader.rs","src/core/graphql/data_loader.rs"],
 [("grouping of response items by key path","src/core/json/json_like.rs"),("query and body batching transformers","src/core/http/transformations")],
 ["requests reaching the upstream","value attached to each entity"])

p("C07","Templates parse, print and render exactly what they say",
 "Every template string is split into literal text and expressions without losing or inventing a character, printing a parsed template and parsing it again gives the same template, and text without complete expressions is kept literally. Rendering replaces each expression by the value at its path in the request context (arguments, parent value, headers, environment, variables) and by nothing when there is no such value. Rendering structured values substitutes inside every string at every depth and leaves all other data, including types, untouched.",
 ["inputs"],
 "All strings over a template alphabet, all contexts and all structured values containing templates.",
 "Tests list a dozen templates; the guarantee is about arbitrary mixes of braces, whitespace, nesting, unicode and missing values.",
 ["src/core/mustache/parse.rs","src/core/mustache/model.rs","src/core/mustache/eval.rs","src/core/path.rs","src/core/blueprint/dynamic_value.rs","src/core/serde_value_ext.rs"],
 [("template grammar","src/core/mustache/parse.rs"),("rendering over path access","src/core/mustache/eval.rs"),("structured templates","src/core/blueprint/dynamic_value.rs")],
 ["parsed segments","rendered text and values"])

p("C08","Upstream requests carry exactly what the configuration and the data say",
 "The request sent to an upstream has the configured method, the rendered URL, every configured query parameter and header with its rendered value, and the rendered body, and nothing else except the allow-listed client headers. List-valued parameters are expanded as configured, empty ones are dropped only when configured so, and explicitly configured parameters extend those already in the base URL. Values taken from a client are data: they never change the host, the path structure or the set of parameters of the request.",
 ["inputs","configurations"],
 "All endpoint templates, parameter lists, header lists, body templates and client-supplied values.",
 "Specs use tame values; reserved characters, lists, empties and pre-existing query strings need systematic generation and an independent expectation of the outgoing request.",
 ["src/core/http/request_template.rs","src/core/http/query_encoder.rs","src/core/http/method.rs","src/core/helpers/url.rs","src/core/helpers/headers.rs","src/core/config/url_query.rs","src/core/config/headers.rs","src/core/config/key_values.rs","src/core/http/transformations"],
 [("request template rendering","src/core/http/request_template.rs"),("query parameter encoding","src/core/http/query_encoder.rs")],
 ["requests recorded by a stand-in upstream"])

p("C09","All internal JSON representations agree",
 "Reading a field, a path or a list, testing a kind, grouping by a key, cloning or converting a value gives the same answer in every JSON representation the gateway uses, and converting between representations preserves numbers, strings, booleans, nulls, lists and objects. Values that are equal hash equally. Grouping by a path returns every item that has a string or number under that path exactly once, under its own key.",
 ["inputs"],
 "All JSON documents and all access paths, including deep nesting, unicode, escaped and empty keys and extreme numbers (one value per key).",
 "Tests compare fixed documents in one representation; agreement has to hold across every document and every pair of representations.",
 ["src/core/json/json_like.rs","src/core/json/borrow.rs","src/core/json/graphql.rs","src/core/json/serde.rs","src/core/json/json_like_list.rs","src/core/helpers/value.rs","src/core/helpers/gql_type.rs","src/core/jit/graphql_executor.rs"],
 [("one JSON trait implemented per representation","src/core/json/json_like.rs")],
 ["results of each accessor in each representation"])

p("C10","Union and interface values are given the type their data identifies",
 "A value of a union or interface type is assigned a member type if and only if its data identifies that member: by a type name the value already carries in `__typename`, else by the type field configured with @discriminate (by default `type`), else, without @discriminate, by being an object whose only key is a member's name and whose value under that key is the member's value. A value that identifies no declared member this way is reported as an error and never given an arbitrary type. Every element of a list, at any depth, is classified on its own, null stays null, and nothing but the type name is added or removed. The decision does not depend on the order in which members, types or fields are written, and the fields selected for a member, and only those, are returned.",
 ["inputs","configurations"],
 "All member sets, discriminator fields and values: objects with present, missing, null, misspelt, non-string and extra fields, nested lists, nulls and non-objects.",
 "Tests try chosen unions and well-formed values; the guarantee is about every value an upstream may send and every position it may appear in.",
 ["src/core/ir/discriminator.rs","src/core/ir/discriminator","src/core/blueprint/union_resolver.rs","src/core/blueprint/interface_resolver.rs","src/core/config/directives/discriminate.rs"],
 [("member named by the only key","src/core/ir/discriminator/keyed_discriminator.rs"),("member named by a type field","src/core/ir/discriminator/type_field_discriminator.rs")],
 ["type chosen per value","__typename and member fields in responses"])

p("C11","Custom scalars accept exactly their documented values",
 "Each built-in custom scalar (email, phone number, date, date-time, URL, JSON, empty, bytes, and the sized signed and unsigned integers) accepts every value in its documented domain and rejects every value outside it, including values at and just past the numeric bounds and values of the wrong JSON kind, whichever JSON representation holds the value. In a response an accepted value is passed through unchanged, alone, in lists and in nested lists; a rejected value is reported as an error for its field and never reaches the client. A scalar can be used wherever a type is expected, as a result, argument or input field, and an argument of it reaches the upstream unchanged.",
 ["inputs"],
 "All JSON values, in every output position and as accepted arguments, for each scalar. (Arguments are not validated by the gateway.)",
 "Tests check a few good and bad samples per scalar; boundaries and odd kinds make up the rest of the domain.",
 ["src/core/scalar.rs","src/core/jit/transform/input_resolver.rs","src/core/jit/synth/synth.rs"],
 [("per-scalar validation","src/core/scalar.rs")],
 ["validation verdict","field values and errors in responses","requests reaching the upstream"])

p("C12","Merging configurations is lawful: right-biased, associative, lossless",
 "Merging configuration values is associative, merging with an empty configuration changes nothing, and a setting present on the right overrides the left while one absent on the right keeps the left. Collections accumulate: every key, header, link, field and type of either side appears in the result exactly once, in a stable order. Merging several sources gives the same result whichever way they are grouped.",
 ["inputs","configurations"],
 "All pairs and triples of configurations, at every mergeable part (server, upstream, telemetry, CORS, headers, key-value lists, types, optional values, collections).",
 "Tests merge hand-picked pairs; laws quantify over all triples and every field, so one forgotten or left-biased field goes unseen.",
 ["src/core/merge_right.rs","tailcall-macros/src/merge_right.rs","src/core/config/directives","src/core/config/key_values.rs","src/core/config/headers.rs","src/core/config/config.rs","src/core/primitive.rs"],
 [("right-biased merge trait and derive","src/core/merge_right.rs")],
 ["merged configuration values"])

p("C13","Linked schemas combine soundly",
 "When several configurations are linked, the combined schema contains every type and field they declare, resolves each field from the source that owns it, and reports every irreconcilable disagreement as an error instead of silently choosing. A type used for output keeps a field nullable if any source says it may be null, and one used for input requires an argument if any source requires it. The outcome does not depend on the order of the linked sources except where order is documented as precedence.",
 ["configurations"],
 "All pairs and triples of configurations sharing type, field, argument, enum, union and input definitions.",
 "Specs cover a few federations; soundness of nullability and conflict reporting depends on every combination of wrappers and uses.",
 ["src/core/config/config_module.rs","src/core/config/reader.rs","src/core/variance.rs","src/core/wrapping_type.rs","src/core/config/npo"],
 [("variance-directed unification of types","src/core/config/config_module.rs"),("nullability merge","src/core/wrapping_type.rs")],
 ["combined configuration or error"])

p("C14","Configurations survive printing and re-reading in every format",
 "A configuration written out as GraphQL SDL, JSON or YAML and read back is the same configuration, printing is idempotent, and all three formats describe the same gateway. The format of a source is recognised from its name exactly when its extension says so. Deriving supporting documents (client schema, directive definitions) never alters the configuration.",
 ["inputs","configurations"],
 "All configurations expressible in the surface syntax, including all directives, default values, descriptions, enums, unions, interfaces and input types.",
 "Snapshot specs fix particular files; round-trip is a statement about every configuration, and one unprinted attribute or mis-escaped string loses user settings silently.",
 ["src/core/config/config.rs","src/core/config/into_document.rs","src/core/config/from_document.rs","src/core/document.rs","src/core/directive.rs","src/core/config/source.rs","src/core/print_schema.rs","src/core/config/url_query.rs","src/core/config/directive.rs"],
 [("document printer","src/core/document.rs"),("directive codec","src/core/directive.rs"),("source format detection","src/core/config/source.rs")],
 ["re-read configuration compared with the original"])

p("C15","REST endpoints match and bind exactly the requests they describe",
 "A REST endpoint accepts a request if and only if its method is the declared one and its path has the declared segments with literals equal and parameters, those of its query included, parseable at their declared type; otherwise the request falls through to the next endpoint or is reported as not found. An accepted request runs the declared operation with every path, query and body parameter bound to its own variable with the declared type and the value the client sent. No request text can bind a variable the endpoint does not declare.",
 ["inputs","configurations"],
 "All endpoint declarations (path shapes, parameter types, query and body bindings) and all requests.",
 "Tests cover a few paths; longer, shorter, percent-encoded, mistyped and overlapping paths need generation against an independent matcher.",
 ["src/core/rest/endpoint.rs","src/core/rest/path.rs","src/core/rest/query_params.rs","src/core/rest/type_map.rs","src/core/rest/typed_variables.rs","src/core/rest/directive.rs","src/core/rest/endpoint_set.rs","src/core/rest/partial_request.rs","src/core/http/request_handler.rs"],
 [("typed path matching","src/core/rest/path.rs"),("typed variable coercion","src/core/rest/typed_variables.rs")],
 ["matched operation and variables","HTTP response"])

p("C16","Query execution returns exactly the selected data",
 "For a valid query the response contains exactly the selected fields under their response names, in the order and nesting of the selection, with the values the upstream supplied for that field, parent and arguments. Aliases, fragments, variables, default values and conditional directives have their GraphQL meaning. A field the client did not select never appears and resolvers nothing selected needs are not called.",
 ["inputs","programs","configurations"],
 "All schemas in the supported subset, all valid queries over them, all variable assignments and all upstream data of the right shape.",
 "Specs fix a couple of hundred query/response pairs; combinations of aliasing, fragments, nesting, lists, nulls and variables are unbounded and need an independent interpreter.",
 ["src/core/jit/builder.rs","src/core/jit/exec.rs","src/core/jit/synth/synth.rs","src/core/jit/store.rs","src/core/jit/transform/input_resolver.rs","src/core/jit/transform","src/core/ir/eval.rs"],
 [("plan building and synthesis","src/core/jit")],
 ["responses","upstream calls"])

p("C17","A response depends on its own request only, not on what came before",
 "The response to a request depends only on that request and on what the upstream returns for it, never on requests served earlier or concurrently, on the order of items in a batch, or on caches of plans, constants or in-flight operations. The same document sent with another operation name, other variables or other credentials is answered for that name, those variables and those credentials. A batch returns one response per item in request order, each equal to the response the item would get alone.",
 ["histories","schedules"],
 "All histories of requests over a shared server, with repeated and near-identical documents, operation names, variables and batches.",
 "Tests start a fresh server per case, so anything remembered between requests is invisible to them.",
 ["src/core/jit/graphql_executor.rs","src/core/app_context.rs","src/core/async_graphql_hyper.rs","src/core/http/request_handler.rs","src/core/jit/exec_const.rs","src/core/data_loader/dedupe.rs"],
 [("plan and constant-response caches","src/core/jit/graphql_executor.rs")],
 ["response in history versus response of a fresh server"])

p("C18","Protected data is served only to requests that authenticate",
 "A field or type marked protected is resolved and returned only when the request presents credentials that satisfy the configured providers, combined exactly as the and/or expression says; otherwise an authentication error is returned, no protected upstream request is made and no protected value appears. A token is accepted only if it is well formed, signed by a configured key, unexpired and for the configured issuer and audience, and a basic credential only if user and password match. Unprotected fields are unaffected, and an outcome for one request never carries over to another.",
 ["inputs","histories","configurations"],
 "All combinations of provider outcomes and and/or trees, all mutations of valid credentials, all placements of protection, all query shapes and request histories.",
 "Tests try a few tokens and one combination at a time; combining rules and mixed public/protected selections need enumeration with an oracle for the decision.",
 ["src/core/auth/verification.rs","src/core/auth/verify.rs","src/core/auth/basic.rs","src/core/auth/jwt","src/core/auth/error.rs","src/core/jit/transform/auth_planner.rs","src/core/jit/transform/check_protected.rs","src/core/ir/eval.rs"],
 [("verification algebra","src/core/auth/verification.rs"),("plan-time guards","src/core/jit/transform/auth_planner.rs")],
 ["decision, response and upstream calls per request"])

p("C19","Cross-origin answers follow the configured policy exactly",
 "Cross-origin response headers are emitted exactly as the configured policy prescribes: an origin is echoed only if it is allowed, credentials are never combined with wildcards, and preflight responses list exactly the allowed methods, headers and lifetime while ordinary responses list the exposed headers. Preflight requests never reach query execution. An unlisted origin never receives a permission.",
 ["inputs","configurations"],
 "All policies and all requests (origin, method, requested headers).",
 "Tests exercise a couple of policies; the policy is a product of independent settings, and a leak shows only for particular combinations.",
 ["src/core/blueprint/cors.rs","src/core/config/cors.rs","src/core/http/request_handler.rs"],
 [("header computation from policy","src/core/blueprint/cors.rs"),("policy validation","src/core/blueprint/cors.rs")],
 ["response headers"])

p("C20","Only permitted headers cross the gateway, and response headers are accurate",
 "A client header reaches an upstream only if it is on the allow list (or configured explicitly), with its value unchanged, and matching ignores letter case. The cache-control of a response is never more permissive than that of any upstream response it was built from, cookies set by upstreams are forwarded when and only when configured, and configured response headers appear on every response to a GraphQL or REST request, malformed ones included. A response is never marked cacheable when it contains errors.",
 ["inputs","configurations"],
 "All allow lists, client header sets, upstream cache-control and set-cookie combinations and settings.",
 "Specs check one header at a time; leaks and permissive lifetimes depend on the combination of several upstreams and headers.",
 ["src/core/http/request_context.rs","src/core/http/request_handler.rs","src/core/async_graphql_hyper.rs","src/core/helpers/headers.rs","src/core/blueprint/upstream.rs","src/core/config/headers.rs","src/core/jit/response.rs"],
 [("allow-list filtering","src/core/http/request_handler.rs"),("minimum cache-control","src/core/http/request_context.rs")],
 ["headers recorded at the upstream","headers of the response"])

p("C21","No request or upstream response crashes or hangs the gateway",
 "Whatever bytes a client or an upstream sends, the gateway answers every request with a well-formed HTTP response and keeps serving later requests. Malformed input is reported as an error and never causes a panic, an endless wait or a response that is not valid JSON. An error response names what went wrong and carries no data from other requests.",
 ["inputs","fault_sequences"],
 "All request bodies, methods, paths and headers; all upstream statuses, bodies and failures.",
 "Tests send well-formed requests; the guarantee is about every byte string and failure, which only generated hostile traffic reaches.",
 ["src/core/http/request_handler.rs","src/core/async_graphql_hyper.rs","src/core/http/response.rs","src/core/ir/eval_http.rs","src/core/jit","src/cli/server/playground.rs","src/core/mustache/parse.rs","src/core/rest"],
 [("request parsing and error responses","src/core/http/request_handler.rs")],
 ["HTTP responses, panics, completion within virtual time"])

p("C22","Concurrent clients never see or use each other's data or credentials",
 "When many clients send requests at the same time, each receives exactly the data its own credentials and arguments produce, as if it were alone. An upstream request made on behalf of one client never carries another client's forwarded header, token or cookie, and results computed for one client are shared with another only when everything that determines them is equal. This holds with batching, deduplication and caching enabled.",
 ["schedules","histories"],
 "All interleavings of requests by clients with different headers, arguments and queries, with all sharing optimisations on.",
 "Tests send one request at a time from one client; cross-talk needs overlapping requests that share a batching window.",
 ["src/core/http/data_loader.rs","src/core/app_context.rs","src/core/data_loader","src/core/http/data_loader_request.rs","src/core/http/request_context.rs","src/core/ir/eval_io.rs"],
 [("loader keys include significant headers","src/core/http/data_loader_request.rs")],
 ["token observed by upstream versus token of the client that received the answer"])

p("C23","JavaScript hooks receive and return messages faithfully",
 "A script hook sees exactly the request's method, URL, headers and body, and what it returns (a response, a changed request, or nothing) is what happens, with status, headers and body unchanged. Values passed to and from scripts convert without loss for every JSON value of a reasonable nesting depth, and malformed results are reported as errors. A failing script never stops the gateway or affects other requests, and script state never leaks between conversions.",
 ["inputs","histories","schedules"],
 "All messages and script results, from any number of concurrent requests.",
 "Tests convert a few samples; fidelity is about every header set, body and value, and about scripts that misbehave.",
 ["src/cli/javascript/codec.rs","src/cli/javascript/runtime.rs","src/core/worker","src/core/blueprint/operators/js.rs"],
 [("codec between native and script values","src/cli/javascript/codec.rs"),("script runtime thread","src/cli/javascript/runtime.rs")],
 ["values seen by an echo script","final upstream request and response"])

p("C24","gRPC messages convert without loss and batches are attributed correctly",
 "Encoding a JSON value as a protobuf message and decoding it again gives the same value for every field type the schema allows, and a value that does not fit the message is reported as an error. Batched gRPC calls send each distinct key once and hand every caller the reply for its own key. Upstream gRPC failures reach the client as errors with the upstream's code and message.",
 ["inputs","schedules"],
 "All messages over scalar, repeated, map, enum, oneof and nested fields; all batches; all status codes.",
 "Tests convert sample messages; loss depends on particular field kinds, defaults and extreme numbers.",
 ["src/core/grpc/protobuf.rs","src/core/grpc/data_loader.rs","src/core/grpc/request.rs","src/core/grpc/request_template.rs","src/core/proto_reader"],
 [("dynamic message conversion","src/core/grpc/protobuf.rs")],
 ["decoded value versus original","value per caller"])

p("C25","Invalid configurations are rejected with all their errors; valid ones start",
 "A configuration with an error (unknown type, reference to a missing argument, field or variable, a nullable or list value in a path, a constant that does not fit its type, repeated or reserved names, call steps that lead nowhere or in a circle, inconsistent settings) never yields a running gateway, and one without errors always does. All independent problems are reported together, each with the path of the offending element, and combining checks neither loses, repeats nor reorders an error, nor lets a later success hide an earlier failure. Building a gateway from a configuration is deterministic and never crashes.",
 ["configurations","programs"],
 "All configurations obtained by seeding any number of faults at any place in valid ones; all ways of combining checks.",
 "Error specs contain one prepared fault each; accumulation and placement need several faults at once at arbitrary positions.",
 ["src/core/try_fold.rs","src/core/transform.rs","src/core/blueprint","src/core/blueprint/template_validation/mod.rs","src/core/blueprint/links.rs","src/core/blueprint/error.rs","src/core/blueprint/timeout.rs","src/core/blueprint/operators"],
 [("accumulating folds","src/core/try_fold.rs"),("configuration to blueprint compiler","src/core/blueprint")],
 ["verdict and error list per configuration"])

p("C26","The published schema is true to the configuration",
 "The schema the gateway publishes by introspection or printing has exactly the types, fields, arguments, defaults, enum values, descriptions and nullability that the configuration exposes, so every query it allows is accepted, and what it does not publish cannot be selected. Type references print, parse and convert without losing or adding a list or non-null marker at any depth. Internal directives and hidden fields are not published.",
 ["configurations","inputs"],
 "All type references of any depth and all configurations; all queries inside and outside the schema.",
 "Snapshots pin some schemas; agreement between configuration, printed schema, introspection and acceptance must hold for all.",
 ["src/core/wrapping_type.rs","src/core/print_schema.rs","src/core/schema_extension.rs","src/core/helpers/gql_type.rs","src/core/blueprint/into_schema.rs","src/core/document.rs"],
 [("type reference algebra","src/core/wrapping_type.rs"),("schema construction","src/core/blueprint/into_schema.rs")],
 ["introspection result and printed schema versus configuration"])

p("C27","Generated configurations fit the samples they were generated from",
 "A configuration generated from sample responses is valid, and a query selecting everything in it against an upstream returning those samples returns those samples. Every generated type, field and argument name is legal and unique, types inferred for a value admit that value in every sample (missing means optional, mixed kinds mean a general type), and equal inputs give equal output. With the optional clean-up transformers off, generation never alters hand-written parts.",
 ["inputs"],
 "All sample documents and sets of samples, including odd names, mixed kinds, nulls and empty collections.",
 "Tests use recorded responses; inference must be sound for all of them, including awkward names and mixed types.",
 ["src/core/generator","src/core/generator/graphql_type.rs","src/core/counter.rs","src/core/config/transformer","src/cli/generator/config.rs","src/core/helpers/gql_type.rs"],
 [("type inference and name sanitising","src/core/generator/graphql_type.rs")],
 ["generated configuration, and responses of a gateway started from it"])

p("C28","Files and environment are read and written faithfully",
 "Once a file write reports success, reading the file gives exactly the bytes written, replacing whatever was there, and once it reports failure the caller is told why; reading a missing file or one that is not text is an error naming the file. Environment lookups return exactly the process's variables. Failures at any point leave no other file changed, and concurrent writes of different files don't mix.",
 ["inputs","histories","fault_sequences","schedules"],
 "All contents and sizes, sequences and interleavings of writes and reads, and failures of the underlying file system.",
 "Tests write one small file and read it back later; lost tails and unreported failures depend on timing, size and faults.",
 ["src/cli/runtime/file.rs","src/cli/runtime/env.rs","src/core/runtime.rs"],
 [("asynchronous file access","src/cli/runtime/file.rs")],
 ["bytes on disk at the moment a write returns"])

p("C29","Configuration operators compose as documented",
 "Fields defined by constants, templates, calls to other fields, renamed, omitted, flattened or added fields, and chains of them, resolve to what applying each operator in order to the underlying data gives. Constant and templated values keep their JSON type. An operator on one field never changes the value, arguments or visibility of another.",
 ["configurations","inputs"],
 "All compositions of operators over all parent data and arguments.",
 "Specs exercise operators one at a time; interactions between them are a product space.",
 ["src/core/blueprint/operators","src/core/blueprint/dynamic_value.rs","src/core/config/directives","src/core/lift.rs","src/core/ir/eval.rs"],
 [("operator compilation into an expression tree","src/core/blueprint/operators")],
 ["field values in responses"])

p("C30","An upstream failure is contained and reported where it happened",
 "When an upstream call fails or returns data of the wrong shape (a null or nothing for a non-null field, another value for a list, an object, an enum or a custom scalar), the response has an error that points at the selection that failed: by its position in the query, and for data of the wrong shape also by its path, list indices included. Every error points at a real failure and keeps the upstream's own message or status. A response with such an error carries no data; no failure is silently turned into data and no success is turned into an error, neither in the same request, nor in requests running at the same time, nor in later ones once the upstream answers again. Errors that a GraphQL upstream reports are handed on with their message, locations, path and extensions, next to the data it gave.",
 ["fault_sequences","inputs"],
 "All assignments of failures to the upstream calls of a query, over all shapes and nullabilities.",
 "Specs fail one call in one shape; containment is about every subset of failing calls.",
 ["src/core/jit/synth/synth.rs","src/core/jit/exec.rs","src/core/jit/error.rs","src/core/ir/error.rs","src/core/errata.rs","src/core/jit/store.rs"],
 [("error collection and null propagation","src/core/jit/synth/synth.rs")],
 ["errors and data of the response per fault assignment"])

p("C31","Error reports keep every message, detail and cause",
 "An error shown to a user or operator contains its message, its description, its location path and each of its causes exactly once, in order and nested as they occurred, whatever their number and however they were wrapped or converted. Adding context to an error never removes what was there. Colour only adds styling: with colour off the text is otherwise the same.",
 ["inputs"],
 "All trees of errors with arbitrary messages, descriptions, traces and causes, and all conversions between error kinds.",
 "Tests print a few fixed errors; preservation must hold for nested and multi-line ones of any shape.",
 ["src/core/errata.rs","src/core/error.rs","src/core/worker/error.rs","src/core/auth/error.rs","src/core/ir/error.rs"],
 [("error rendering","src/core/errata.rs")],
 ["rendered text"])

p("C32","The N+1 report names the paths that call an upstream once per item",
 "The N+1 report of a configuration has exactly one entry for each path of fields, from the query type or from a federated entity, that crosses a list and ends at the first field whose resolver isn't batched, and for each entity whose own resolver isn't batched; its size is the number of entries. Running a reported path calls the upstream once per item, running any other path calls each upstream once. With recursive types every reported path is real, and each resolver a top-level field or entity leads to this way is reported for it.",
 ["configurations"],
 "All graphs of types, lists and resolvers, batched and not, nested, shared and recursive.",
 "Tests pin the report of a dozen small configurations; what is reported depends on all paths of the type graph and on the order in which they are visited.",
 ["src/core/config/npo/tracker.rs","src/core/config/resolver.rs","src/cli/fmt.rs"],
 [("path search with memoised types","src/core/config/npo/tracker.rs")],
 ["report versus all paths of the configuration, and upstream calls per executed path"])

p("C33","The settings of the server and of the upstream client take effect",
 "Every setting of `@server` and `@upstream` that a configuration writes, in whatever format, reaches the running gateway with the value written, and every setting left out has its documented default. A started server listens on the configured host, port, scheme and HTTP version and answers on the configured routes with the configured headers, or reports why it can't start. Calls to upstreams use the configured proxy, user agent, TLS verification, HTTP version and timeouts: a call that outlasts its timeout ends with an error after that time and not before, one that answers in time is never cut off, and neither affects the next call. A script that runs longer than its timeout is stopped, whatever it is doing, and later scripts run normally.",
 ["inputs","timing"],
 "All combinations of settings and formats, and all timings of upstream answers and scripts around their limits.",
 "Specs set one or two settings in a fixed configuration and never start a server with them; whether each value arrives is about every combination and the real client and server.",
 ["src/core/config/directives/server.rs","src/core/config/directives/upstream.rs","src/core/blueprint/server.rs","src/core/blueprint/upstream.rs","src/cli/server/server_config.rs","src/cli/server/http_1.rs","src/cli/server/http_2.rs","src/cli/runtime/http.rs","src/cli/javascript/runtime.rs","src/core/http/request_handler.rs"],
 [("settings of the real HTTP client","src/cli/runtime/http.rs"),("configured routes","src/core/http/request_handler.rs"),("clock of scripts","src/cli/javascript/runtime.rs")],
 ["values the gateway is built from, bytes on loopback sockets, time until an answer"])

ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
