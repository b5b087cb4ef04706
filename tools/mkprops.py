#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe, hook_needed=hook)))

p("C01", "RPC transparency between generated Go client and generated proxy",
  "Calling a method on a generated Go HTTP client makes the service behind the matching generated proxy run exactly once with exactly the argument values passed, in order, and hands back exactly the values the service returned, in order, with a nil client error. This holds for every value, with either client encoding.",
  ["inputs", "programs", "configurations"], "all argument and return values, all methods of a generated service, both encodings",
  "The only end-to-end test sends one call without arguments; no test passes a value through client, wire and proxy.",
  ["go.go", "client.go", "gotsrpc.go", "transport.go"],
  [("renderTSRPCServiceProxies", "go.go"), ("renderTSRPCServiceClients", "go.go"), ("bufferedClient.Call", "client.go"), ("LoadArgs / Reply", "gotsrpc.go")],
  ["arguments the service receives", "values the client call returns"])

p("C02", "A proxy runs a service method only for a well-formed call of that method",
  "For any request, a generated proxy invokes its service at most once, and only when the request is a POST to <endpoint>/<name> where <name> is exactly a method of the service and the arguments decode. Every other request leaves the service untouched: OPTIONS is answered with an empty 200, other verbs with 405, unknown names with 404, undecodable arguments with 400.",
  ["inputs", "fault_sequences"], "all HTTP verbs, all request paths, decodable and undecodable bodies",
  "No test sends a wrong verb, a wrong path or a broken body to a proxy; the space of paths is unbounded.",
  ["go.go", "gotsrpc.go"],
  [("ServeHTTP template", "go.go renderTSRPCServiceProxies"), ("GetCalledFunc", "gotsrpc.go"), ("ErrorMethodNotAllowed/ErrorFuncNotFound/ErrorCouldNotLoadArgs", "gotsrpc.go")],
  ["service invocations", "HTTP status and body"])

p("C03", "Every client call sends one faithful POST",
  "Each client call that reaches the transport issues exactly one POST to <url><endpoint>/<method> in the caller's context, whose Content-Type and Accept both name the configured encoding, which carries the service-to-service marker header and every configured default header that these do not override, and whose body is the arguments in that encoding (empty when there are none).",
  ["inputs", "configurations", "histories"], "all urls, endpoints, method names, default headers, encodings and argument counts",
  "Test_newRequest checks one hand-picked header and no call.",
  ["client.go", "transport.go"],
  [("bufferedClient.Call", "client.go"), ("newRequest", "client.go"), ("getHandleForEncoding", "transport.go")],
  ["request seen by the http.RoundTripper"])

p("C04", "A client call succeeds only on a 200 reply it could decode",
  "A client call returns a nil error exactly when the server answered 200 and the body decoded; every other outcome (arguments that cannot be encoded, unusable url, transport failure, unreadable body, any other status, undecodable body) yields a non-nil error that is a ClientError exposing its cause, and a non-200 answer exposes status code and body. On a failure before decoding the reply variables keep their values.",
  ["inputs", "fault_sequences"], "every failure at every step of a call, all status codes and bodies",
  "Tests exercise one outcome (cancelled context); failures of encoding, reading and decoding and other statuses are never produced.",
  ["client.go", "clienterror.go", "httperror.go"],
  [("bufferedClient.Call", "client.go"), ("ClientError.Unwrap", "clienterror.go"), ("NewHTTPError", "httperror.go")],
  ["error returned by Call", "reply variables"])

p("C05", "The response body is always closed",
  "Whenever the transport hands the client a response, its body has been closed when the call returns, whatever the status, the headers and the failure or success of reading and decoding; no connection is leaked.",
  ["fault_sequences", "inputs"], "all statuses, content types, read failures and decode failures",
  "A leak needs a failing path that no test takes, and even then shows only as exhausted connections later.",
  ["client.go"], [("defer resp.Body.Close()", "client.go bufferedClient.Call")], ["Close calls on the response body"])

p("C06", "Default headers are isolated from calls",
  "Default headers configured on a client are never modified by making calls, however many and in whatever encodings; each request gets headers of its own, so that nothing one request (or its transport) does to its headers shows up in another request or in the caller's header map.",
  ["histories", "schedules", "inputs"], "all histories of calls and encoding switches, all default headers",
  "Needs several calls on one client with default headers set and a look at the shared map; no test makes a call with default headers.",
  ["client.go"], [("headers.Clone()", "client.go Call"), ("newRequest", "client.go")],
  ["caller's http.Header map", "headers of later requests"],
  [("bufferedClient.headers", "header template shared by all calls", "client.go")])

p("C07", "A reply is written in the encoding of its request and labelled truthfully",
  "The server answers a request in the encoding named by the request's Content-Type, and in JSON when that names no known encoding; the arguments are read and the reply is written with the same encoding, the reply's Content-Type names the encoding actually used, and Content-Length is the exact number of body bytes.",
  ["inputs", "configurations"], "all Content-Type values, all replies",
  "No test calls LoadArgs or Reply over HTTP with any content type.",
  ["gotsrpc.go", "transport.go"],
  [("getHandlerForContentType", "transport.go"), ("Reply", "gotsrpc.go"), ("LoadArgs", "gotsrpc.go")],
  ["response headers and body", "decoded arguments"])

p("C08", "A reply is all or nothing",
  "If a reply cannot be encoded, none of its bytes reach the client and the proxy answers 500; if it can be encoded it is written in full with a single write, and a failing write is reported to the caller. A failed reply never reaches the monitor as a success.",
  ["fault_sequences", "inputs"], "failures of encoding and writing at every step",
  "No test makes encoding or writing fail.",
  ["gotsrpc.go", "go.go"], [("Reply", "gotsrpc.go"), ("ErrorCouldNotReply", "gotsrpc.go")],
  ["bytes and status written to the ResponseWriter", "error of Reply", "Monitor calls"])

p("C09", "Call statistics describe the call that was made",
  "After a served call the statistics carry package, service and method of that call, the request size announced by the request, the exact size of the reply, and an error code, type and message exactly when the last return value is a non-nil, non-zero error: that error's own type and message, and its own error code if it has one (1 otherwise). They are the same whichever encoding the client uses.",
  ["inputs", "configurations"], "all return values and error types, both encodings",
  "The stats test fills the statistics in itself; nothing checks what a reply records, let alone across encodings.",
  ["gotsrpc.go", "transport.go", "stats.go", "go.go"],
  [("Reply (stats block)", "gotsrpc.go"), ("LoadArgs (RequestSize)", "gotsrpc.go"), ("beforeEncodeReply", "transport.go"), ("callStats assignments", "go.go template")],
  ["CallStats passed to handlers"])

p("C10", "Instrumentation reports each served call exactly once",
  "Wrapping a handler in an instrumented service passes every request through to it once, and afterwards reports statistics exactly once for a request that was dispatched and never for a request whose method is unknown; the reported statistics are the ones the handler filled in during that request and are not shared between requests.",
  ["histories", "inputs"], "all sequences of requests, nested instrumentation, known and unknown methods",
  "The single test makes one request with a handler that always reports.",
  ["instrumentation.go", "gotsrpc.go"],
  [("InstrumentedService", "instrumentation.go"), ("RequestWithStatsContext/GetStatsForRequest/ClearStats", "gotsrpc.go")],
  ["handleStats invocations"])

p("C11", "The session ResponseWriter knows the status that went out",
  "For any sequence of WriteHeader and Write calls a service method makes on the response writer it is given, Status reports the status the client actually receives: the first final status written, or 200 if the body was started first or nothing was written.",
  ["histories"], "all sequences of WriteHeader (any code) and Write calls",
  "The type has no test; errors show only when a handler writes more than one status.",
  ["responsewriter.go", "go.go"], [("ResponseWriter.WriteHeader/Status", "responsewriter.go")],
  ["Status()", "status recorded by the underlying writer"],
  [("wroteHeader/status", "first status sent", "responsewriter.go")])

p("C12", "Transported errors keep their message",
  "Converting an error for transport never changes what it says: the transported error's message equals the original error's message, for errors wrapped any number of times in any of the usual ways. Converting an already converted error changes nothing.",
  ["inputs", "histories"], "all wrap chains up to a depth, all messages",
  "No test covers error conversion at all.",
  ["error.go", "transport.go"], [("NewError", "error.go"), ("Error.Error", "error.go")], ["Error() of the transported error"])

p("C13", "errors.Is works across the wire",
  "errors.Is of a transported error against a sentinel is true for every error in the original chain, and false for a sentinel whose message, type or package is found nowhere in that chain.",
  ["inputs", "histories"], "all wrap chains up to a depth, all messages, all candidate targets",
  "No test covers error identity after transport.",
  ["error.go"], [("Error.Is / Unwrap / Cause", "error.go"), ("NewError", "error.go")], ["errors.Is on the client"])

p("C14", "errors.As finds the typed error, and only that type",
  "errors.As of a transported error succeeds for a target type exactly when the original chain contains an error of that type (same package, same name), and then fills the target with that error's data; it never succeeds for another type.",
  ["inputs"], "all error types, packages and chains up to a depth",
  "No test covers it; mixing up types needs two packages with equal last elements.",
  ["error.go"], [("Error.As", "error.go")], ["errors.As on the client"])

p("C15", "Client-side error types tell the truth",
  "An HTTP error reports the status code and body of the answer through its fields and its message, and a client error is transparent: its message, errors.Is and errors.As give the same answers as the error it wraps, for every wrapped error.",
  ["inputs"], "all codes, bodies and wrapped errors",
  "No test constructs either type.",
  ["httperror.go", "clienterror.go"], [("NewHTTPError/HTTPError.Error", "httperror.go"), ("ClientError.Unwrap", "clienterror.go")],
  ["fields, message, errors.Is/As"])

p("C16", "Times survive JSON with millisecond precision",
  "A time sent as JSON arrives as the same instant truncated to the millisecond, for every instant whose Unix millisecond count is representable, the zero time included.",
  ["inputs"], "all time.Time values representable in Unix milliseconds",
  "No test sends a time; overflow shows only for instants beyond the years 1677 and 2262, the zero time among them.",
  ["timeext.go"], [("TimeExt.ConvertExt/UpdateExt", "timeext.go")], ["time decoded on the other side"])

p("C17", "A union is sent as its set variant",
  "A union value is encoded in JSON as its first variant that is set, unchanged, and as null when none is; a union given by pointer and by value encode alike.",
  ["inputs"], "all unions up to a number of variants, all values of the variants",
  "No test encodes a union.",
  ["unionext.go"], [("UnionExt.ConvertExt", "unionext.go")], ["value handed to the JSON encoder"])

p("C18", "Generated Go code uses exactly the types of the service",
  "For every supported Go type expression in a service method's parameters and results, the generated proxy, HTTP client and RPC code declare the identical type (same constructors, same named type, qualified with an alias that the file imports for that package).",
  ["programs"], "all type expressions built from scalars, named local and imported types, pointers, slices and maps up to a depth",
  "The examples contain a fixed set of signatures; regenerating them says nothing about other type shapes.",
  ["go.go", "typereader.go", "servicereader.go"], [("Value.goType", "go.go"), ("Value.loadExpr", "typereader.go"), ("extractImports", "go.go")],
  ["generated Go source"])

p("C19", "TypeScript client, Go client and proxy agree on the call signature",
  "For every service method the TypeScript client method, the Go client method and the proxy agree: same wire name, same number and order of arguments (HTTP writer and request excluded only in first and second position), and every return value found at its own position, under its own name.",
  ["programs"], "all methods with up to a number of parameters and results, named or unnamed, with or without HTTP session parameters",
  "The examples have few signatures (at most four parameters, session parameters only alone); other combinations are never generated.",
  ["go.go", "typscriptclient.go"], [("renderTypescriptClient", "typscriptclient.go"), ("goMethodArgsWithoutHTTPContextRelatedArgs", "go.go"), ("newMethodSignature", "go.go")],
  ["generated TypeScript and Go source"])

p("C20", "TypeScript types admit exactly what the server sends",
  "The TypeScript type generated for a Go type is the JSON shape of that type: number, string, boolean, any, arrays, records, named types by module, with null allowed exactly where the Go value can be nil and is not omitted, and the field optional exactly when it is tagged omitempty.",
  ["programs"], "all type expressions built from scalars, named types, pointers, slices and maps up to a depth, with and without omitempty",
  "The nullable example enumerates some shapes; nesting and combinations with omitempty are open-ended.",
  ["typescript.go", "typereader.go"], [("Value.tsType", "typescript.go"), ("renderStructFields", "typescript.go")],
  ["generated TypeScript source"])

p("C21", "TypeScript fields are named and marked by the json tag, as on the wire",
  "For every struct tag, the TypeScript field has the name the JSON encoder puts on the wire (tag name, or Go field name if the tag gives none), is left out exactly when the encoder leaves it out, and is optional exactly when the tag says omitempty; a gotsrpc type override replaces the type.",
  ["inputs", "programs"], "all struct tags up to a length, in particular all json names and option lists",
  "Struct tags are free-form strings; the examples use a handful.",
  ["typereader.go", "typescript.go"], [("extractJSONInfo", "typereader.go"), ("Field.tsName", "typescript.go"), ("renderStructFields", "typescript.go")],
  ["generated TypeScript interface"])

p("C22", "Exactly the exported, unignored fields are described",
  "A generated TypeScript interface lists every exported field of the Go struct that is not tagged out, in source order, and no unexported field, whatever the field names.",
  ["programs", "inputs"], "all structs up to a number of fields, all field names and tags",
  "The examples contain only ASCII, exported, simply tagged fields.",
  ["typereader.go", "typescript.go"], [("readFieldList", "typereader.go"), ("renderStructFields", "typescript.go")],
  ["generated TypeScript interface"])

p("C23", "Every type a service needs is described, once, or generation fails",
  "Reading a service finds every named type reachable from its method signatures through fields, elements, keys and values, including through recursive types, and terminates; a type that cannot be found or whose package has no mapping is reported as an error rather than left dangling.",
  ["programs"], "all graphs of struct, scalar, map and slice types up to a size, cyclic ones included",
  "The examples have acyclic, always resolvable type graphs.",
  ["servicereader.go", "typereader.go", "typescript.go"], [("collectTypes/typesPending/DepsSatisfied", "servicereader.go"), ("collectStructTypes/collectScalarTypes", "servicereader.go"), ("renderTypescriptStructsToPackages", "typescript.go")],
  ["types returned by Read, error of Read and of rendering"])

p("C24", "Generation is deterministic",
  "Generating twice from the same sources and configuration gives the same output, whatever order maps are iterated in.",
  ["schedules", "programs", "configurations"], "all map iteration orders, up to a number of services, types, constants and packages",
  "Go randomises map order per run; a test run samples one order.",
  ["build.go", "servicereader.go", "typescript.go", "go.go"], [("sort.Strings/sort.Sort of names", "build.go, servicereader.go, typescript.go, go.go")],
  ["generated source for different iteration orders"])

p("C25", "A service exposes exactly its exported methods",
  "The methods generated for a service are exactly the exported methods declared for it (by an interface, or on a pointer receiver), each once, with the parameters and results of its declaration, sorted by name; methods of other types and unexported methods are never exposed.",
  ["programs"], "all packages with up to a number of types and methods, any names and receivers",
  "The examples contain one plain interface per package.",
  ["servicereader.go"], [("readServiceFile", "servicereader.go"), ("readServicesInPackage", "servicereader.go")],
  ["services returned by Read, generated dispatch"])

p("C26", "Generated enums list every constant with its own value",
  "For a named scalar type with literal constants the generated TypeScript enum has one member per declared constant of that type, each with that constant's own value, under a distinct valid name; constants of other types do not appear, and a scalar type without constants becomes an alias of its TypeScript scalar.",
  ["programs"], "all const declarations up to a size: grouped, several per line, any names and literal values",
  "The examples contain only single-name, well-behaved constants.",
  ["servicereader.go", "typescript.go"], [("loadConstantTypes", "servicereader.go"), ("enum rendering", "typescript.go renderTypescriptStructsToPackages")],
  ["generated TypeScript enum"])

p("C27", "Packages are looked up and written where the Go toolchain has them",
  "A package path is mapped to a directory as the Go toolchain would: below the module root exactly when the module path is the package path or a path-element prefix of it, otherwise below the replacement directory of a local replace directive or the versioned module directory of the requirement with the longest matching module path; files generated for a package of the module go to the directory the package was read from.",
  ["inputs", "configurations"], "all module names and paths, package paths, replace and require directives up to a length",
  "The examples use one module and packages below it only.",
  ["gotsrpc.go", "build.go"], [("parseDir", "gotsrpc.go"), ("getPathForTarget", "build.go")],
  ["directory read, directory written"])

p("C28", "TypeScript imports point at the mapped files",
  "Every import in a generated TypeScript file resolves, relative to that file, to the output file of the mapping it stands for, and every module used in the file is imported.",
  ["inputs", "configurations"], "all pairs of relative and absolute output paths up to a length, all sets of mappings up to a size",
  "The examples use two neighbouring files.",
  ["build.go"], [("relativeFilePath", "build.go"), ("commonJSImports", "build.go")], ["import lines of generated TypeScript"])

p("C29", "Output files are rewritten exactly when their content changes",
  "After a successful update the file holds exactly the generated text, missing directories having been created and a leading ~ standing for the home directory; a file that already holds that text is not written, and failures are reported.",
  ["inputs", "fault_sequences"], "all old and new contents up to a length, all failures of the file system",
  "No test writes a file twice or makes a write fail.",
  ["build.go"], [("updateCode", "build.go")], ["file content, writes, error"])

p("C30", "A target generates code for exactly the services it selects",
  "Go RPC code is generated for exactly the services listed as gorpc, Go HTTP code for exactly those listed as tsrpc (the client only unless it is skipped), and TypeScript clients for those listed as tsrpc or for all services when none is listed; code that is no longer selected is removed, and one service's selection never affects another's code.",
  ["configurations"], "all selections and service names up to a size",
  "The examples have one service per target.",
  ["config/config.go", "go.go", "typescript.go"], [("Target.IsGoRPC/IsTSRPC", "config/config.go"), ("render loops", "go.go, typescript.go")],
  ["generated source per service"])

p("C31", "Go RPC transparency",
  "A request built by the generated Go RPC client is handled by the generated RPC proxy by calling exactly the method it names, once, with exactly the argument values it carries, and the response carries exactly the returned values in order; an unknown request calls nothing, and every request is reported to the stats handler once, if one is set.",
  ["inputs", "programs"], "all methods of a generated service, all argument and return values, unknown requests",
  "No test starts an RPC server or calls the handler.",
  ["go.go"], [("renderGoRPCServiceProxies", "go.go"), ("renderGoRPCServiceClients", "go.go")],
  ["service invocations, response value, stats handler"])

p("C32", "Import aliases are unique per package",
  "In every generated Go file, two different packages never share an import alias, one package never gets two aliases, aliases are valid identifiers, and the package being generated is not imported under an alias that its own types are qualified with.",
  ["programs", "configurations"], "all sets of import paths up to a size and length",
  "The examples import at most two extra packages.",
  ["go.go"], [("extractImport", "go.go"), ("renderImports", "go.go")], ["import block of generated Go source"])

p("C33", "Metrics record each served call once under its own labels",
  "Serving a call through the Prometheus instrumentation adds exactly one observation per phase duration and per size to the series labelled with that call's package, service and method, with the values the call's statistics have in the unit the metric names; an unknown method adds none. A served Go RPC call likewise adds exactly one execution time in seconds.",
  ["inputs", "histories"], "all statistics values and sequences of calls",
  "The package has no tests.",
  ["prometheus/prometheus.go"], [("InstrumentService/InstrumentGoRPCService", "prometheus/prometheus.go")], ["collected summaries"])

p("C34", "Code layout never changes code content",
  "The code builder used for all generated text keeps every piece of text given to it, in order, once: indentation affects only leading tabs and never becomes negative, a line ends exactly where a line end was asked for, and rendering is repeatable.",
  ["histories", "inputs"], "all sequences of builder operations up to a length, any text",
  "The builder has no test; examples exercise one interleaving of its operations.",
  ["code.go"], [("code.ind/nl/l/app/string", "code.go")], ["rendered text"],
  [("line/lines/indent", "pending line, finished lines, indent", "code.go")])

p("C35", "Configured paths are resolved against the configuration file",
  "A relative module path in a configuration is resolved against the directory of the configuration file (not the working directory), an absolute one is kept, the go.mod found there is used, and a malformed configuration or go.mod or an unreadable one is an error, never a silently partial configuration.",
  ["inputs", "fault_sequences"], "all module paths and configuration file locations up to a length, missing, unreadable and malformed files",
  "Two tests check one relative and one absolute path with valid files.",
  ["config/config.go"], [("LoadConfigFile", "config/config.go")], ["Config returned, error"])

p("C36", "The causes of a transported error end at its root cause",
  "Following the causes of a transported error, by errors.Unwrap or by errors.Cause of github.com/pkg/errors, always ends, and errors.Cause yields an error that says what the root cause of the original error says, that errors.Is still recognises as it, and that can be transported again.",
  ["inputs", "histories"], "all wrap chains up to a depth, all messages",
  "No test follows the causes of a transported error.",
  ["error.go"], [("Error.Cause / Unwrap", "error.go"), ("NewError", "error.go")], ["errors.Cause and errors.Unwrap on the client"])

p("C37", "The generator succeeds only with everything it was asked for",
  "If anything the configuration names or a service needs (a package, a Go file of it, a service, a type, an output file) cannot be read, understood or written, the generator exits with a failure status. Whenever it exits with success, every output file the configuration asks for exists and is complete.",
  ["inputs", "fault_sequences"], "all names in a configuration that match nothing, all source files cut short or with any byte changed, every failing write",
  "The tests run the generator on well-formed examples only.",
  ["build.go", "servicereader.go", "gotsrpc.go", "cmd/gotsrpc/gotsrpc.go"],
  [("Build", "build.go"), ("Read / declaresType", "servicereader.go"), ("parsePackage", "gotsrpc.go")],
  ["exit status", "output files"])

p("C38", "The monitor hook is told of each served call exactly once",
  "A generated proxy calls gotsrpc.Monitor exactly once for each call whose method it ran and whose answer it sent, after both, with that request and writer, pointers to the arguments the method received, the results that were answered, in order, and the call's completed statistics naming package, service and method. It does not call it for requests that run no method or whose answer cannot be sent. Earlier calls never show in what a later one reports.",
  ["inputs", "histories", "fault_sequences"], "all requests and sequences of requests, all argument and result values, failing answers",
  "No test sets a monitor.",
  ["go.go", "monitor.go", "gotsrpc.go"],
  [("ServeHTTP template", "go.go renderTSRPCServiceProxies"), ("Monitor", "monitor.go"), ("Reply", "gotsrpc.go")],
  ["arguments of gotsrpc.Monitor"],
  [("gotsrpc.Monitor", "the hook", "monitor.go")])

p("C39", "Types with a registered codec extension are sent the way it says",
  "Values of a type registered with SetJSONExt are encoded by the extension's ConvertExt and read back with its UpdateExt with JSON encoding, those of a type registered with SetMSGPackExt by WriteExt and ReadExt with msgpack, wherever they occur in arguments and results: on their own, behind pointers, in lists, maps and fields. nil pointers stay nil, and neither other types nor the other encoding are affected.",
  ["inputs", "configurations"], "all values of registered types in all positions, both encodings",
  "No test registers an extension.",
  ["transport.go", "gotsrpc.go", "client.go"],
  [("SetJSONExt / SetMSGPackExt", "transport.go"), ("init", "transport.go"), ("LoadArgs / Reply", "gotsrpc.go")],
  ["arguments a service receives", "values a client returns"])

p("C40", "JSON calls mean to a browser what they mean in Go",
  "To a client that knows JSON and nothing of Go, a reply is a list with one element per result: numbers, bools and strings for theirs, null for nil, base64 text for bytes, milliseconds for times, lists for slices and arrays, objects for maps (whatever type their keys have) and for structs with exactly the members their tags name. Arguments sent in that form arrive with the same meaning: unknown members are ignored, missing ones and null leave the zero value. That is so for every request whose content type is not msgpack's.",
  ["inputs"], "all results and arguments of all types the codec carries",
  "Tests talk to the server with its own Go client, which uses the same codec options on both ends.",
  ["transport.go", "gotsrpc.go", "timeext.go"],
  [("init", "transport.go"), ("useTimeExt", "transport.go"), ("LoadArgs / Reply", "gotsrpc.go")],
  ["response bodies", "arguments a service receives"])

p("C41", "Client and server need not have the same version of a type",
  "A value sent as one Go type arrives in another of the same shape, with either encoding, as argument and as result: fields meet by the names their tags give, members the receiver does not know are ignored, and fields the sender does not know stay zero. What is received in an interface arrives in its natural form: nil, bools, numbers of equal value, strings, []interface{} for lists, map[string]interface{} for maps and structs.",
  ["inputs", "configurations"], "all values, all pairs of types of the same shape",
  "No test sends a value as one type and receives it as another.",
  ["transport.go", "gotsrpc.go", "client.go"],
  [("init", "transport.go"), ("LoadArgs / Reply", "gotsrpc.go"), ("bufferedClient.Call", "client.go")],
  ["arguments a service receives", "values a client returns"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
