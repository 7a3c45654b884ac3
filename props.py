TV = 'TLA+ specification checked with TLC; trace validation of the real code against it'
NOTE = ('TLC explores the specification exhaustively within small constants; executions of the real code (enumerated and seeded '
        'random histories, ASan build) are accepted only if every recorded event is a step of the specification. Assurance '
        'covers the executions driven; trusted: TLC, the harness that records events, the compiler.')

prop('C01', 'Received bytes reach the handler exactly once, in order, however split',
     'Whatever sizes the pieces of a connection\'s byte stream arrive in and whatever the message handler takes or postpones, every time it is '
     'called it is given exactly the bytes received and not yet consumed, unaltered and in order, and a postponed message is offered again '
     'together with the bytes that arrived since. Reading continues (with room for at least one more byte) until the peer ends the stream, an '
     'error occurs or the handler asks to disconnect, and each consumed message is counted once.',
     ['inputs', 'histories'], 'every sequence of read sizes and of handler decisions (consume part, consume all, wait for more, disconnect), messages of any length',
     'One test feeds a handful of fixed message sizes; the moves between array, compacted array and vector depend on exact offsets and orders no test samples.',
     ['bomba_tcp_server.hpp'],
     [('receive loop and storage rearrangement', 'bomba_tcp_server.hpp TcpServerBuffer::receive'), ('space for the next read', 'bomba_tcp_server.hpp TcpServerBuffer::space')],
     ['bytes passed to the session callback', 'return value of receive', 'size of space()'], claim=TV,
     state=[('_keptStart,_keptEnd', 'the part of the memory not consumed yet', 'TcpServerBuffer'), ('_longLeftovers', 'memory of messages longer than the array', 'TcpServerBuffer')],
     level_note=NOTE + ' The storage strategy is also modelled with scaled constants and shown to refine the byte-stream specification.')

prop('C02', 'HTTP replies do not depend on how requests are split into packets',
     'The sequence of replies to a byte stream of HTTP requests on one connection depends only on the bytes: splitting it into packets differently, '
     'or sending several requests at once, changes neither the requests the application sees (path, content type, body) nor the replies, nor the point where the connection is closed. '
     'Requests are answered in order, and a request\'s reply depends on that request alone, not on headers of earlier requests of the connection.',
     ['inputs', 'histories', 'schedules'], 'every request stream, every division of it into packets, every pipelining depth',
     'Tests feed whole requests or a few hand-picked cuts; the parser restarts at every cut and keeps state between requests.',
     ['bomba_http.hpp', 'bomba_tcp_server.hpp'],
     [('incremental header parser', 'bomba_http.hpp Detail::HttpParseState::parse'), ('request handling and state reset', 'bomba_http.hpp HttpServer::Session::respond')],
     ['calls of the GET and POST responders', 'bytes written', 'disconnection'], claim=TV, level_note=NOTE)

prop('C03', 'Every complete HTTP request gets exactly one well-formed reply',
     'Each complete HTTP request gets exactly one reply consisting of a valid status line, headers ended by an empty line and a body of exactly the announced length, equal to what the application produced: '
     '200 with the body, 204 if the application succeeded without producing a reply, 404 or 400 if it declined a GET or POST, 501 for unsupported methods, and 500 if it failed before its reply started. '
     'A failure after a reply started never produces a second reply but closes the connection, and so does a request that asked for the connection to be closed, after its reply.',
     ['inputs', 'histories', 'fault_sequences'], 'every request, every outcome of the application (reply of any size in any pieces, no reply, refusal, failure at any point)',
     'Tests check a few fixed replies; body sizes across buffer growth and failures after a started reply are not sampled.',
     ['bomba_http.hpp'],
     [('reply construction', 'bomba_http.hpp HttpServer::Session::respond'), ('expanding and streaming buffers', 'bomba_core.hpp ExpandingBuffer, StreamingBuffer')],
     ['bytes written', 'reaction returned'], claim=TV, level_note=NOTE)

prop('C04', 'Malformed or hostile input never takes the server down',
     'Whatever bytes a peer sends, in whatever pieces, the HTTP and binary RPC servers either wait for more bytes, reply, or close that connection: no failure escapes to the server loop and nothing outside the received bytes is read. '
     'Nothing is answered before a request\'s header is complete, and a request that cannot be interpreted (bad length, missing length, broken header line) closes the connection or gets an error reply.',
     ['inputs', 'histories'], 'every byte sequence and every division of it, in particular mutated valid requests',
     'Tests send valid requests only.',
     ['bomba_http.hpp', 'bomba_binary_protocol.hpp', 'bomba_tcp_server.hpp'],
     [('first line and header parser', 'bomba_http.hpp'), ('request parser', 'bomba_binary_protocol.hpp BinaryProtocolServer')],
     ['exceptions escaping respond()', 'bytes written', 'reaction'], claim=TV, level_note=NOTE)

prop('C05', 'Clients match each response to its request in any order of retrieval',
     'When several requests are in flight on one connection, retrieving any of them, in any order and however the responses are split into packets, yields the response to that very request exactly once, '
     'and retrieving or polling one never loses, duplicates or mixes up another. Polling returns without waiting, and says that a response is available exactly if retrieving it would not wait. '
     'Retrieving a response that can no longer arrive whole, because the server closed the connection or sent something that is no message, is an error and does not wait forever; so is sending a request to a server that has closed the connection.',
     ['inputs', 'histories', 'schedules'], 'every order of sends, polls and retrievals, every division of the response bytes into packets and every arrival time; JSON-RPC, binary and plain HTTP clients',
     'Tests use in-memory pipes that deliver one whole response at a time.',
     ['bomba_sync_client.hpp', 'tls/tls_sync_client.hpp', 'bomba_http.hpp', 'bomba_json_rpc.hpp', 'bomba_binary_protocol.hpp'],
     [('response search and stash', 'bomba_sync_client.hpp SyncNetworkClient::searchRequests, tls/tls_sync_client.hpp'), ('response identification', 'getResponse of the protocol clients')],
     ['values delivered to the caller'], claim=TV, level_note=NOTE)

prop('C06', 'A remote call behaves like one local call with the same arguments',
     'A call made through a client object, waited for or asynchronous, executes the function of the same place in the server\'s object exactly once, on the object it belongs to, with equal argument values, in the order of calls on the connection, and the caller gets the equal return value, for JSON-RPC and the binary protocol and every supported type, and for functions that return nothing also when called as submitted forms. '
     'If the function throws, or the client refuses to write the call (because the format can\'t contain the arguments or the message would be too large), the caller gets an error and never a made-up value, nothing else is executed, and other calls are unaffected; the binary protocol can\'t transfer errors, so there the server closes the connection and calls waiting on it end with errors. (Nesting is limited by template arguments; forms can contain only plain values.)',
     ['inputs', 'histories', 'programs'], 'every service built from the supported building blocks and every sequence of calls on several connections over every protocol with arguments of every supported type, including calls that fail or are refused, with messages delivered in pieces of any sizes',
     'Tests make single calls with one fixed argument set per protocol.',
     ['bomba_rpc_object.hpp', 'bomba_json_rpc.hpp', 'bomba_binary_protocol.hpp', 'bomba_http.hpp', 'bomba_object.hpp'],
     [('argument marshalling', 'bomba_rpc_object.hpp RpcLambda'), ('protocol servers and clients', 'bomba_json_rpc.hpp, bomba_binary_protocol.hpp, bomba_http.hpp')],
     ['server-side invocations', 'value or exception at the caller'], claim=TV, level_note=NOTE)

prop('C07', 'A future yields its result once resolved and never harms its owner',
     'A future of a remote call gives the value (or throws the error) that the response carries, waiting for it if needed, however often it is asked, collects the response at most once, reports readiness without waiting and without collecting anything (true exactly if the response is there), and leads to its own call wherever it is moved. '
     'Dropping or overwriting a future at any point, pending, failed or collected, neither throws, crashes nor disturbs other futures; it may wait for its own response. The future of a call executed at once has its value immediately.',
     ['histories', 'fault_sequences'], 'every sequence of creation, polling, getting, moving, overwriting and dropping of several futures of every kind of result including none, with responses that succeed, fail, are missing or malformed and arrive at any time',
     'Tests get each future once in order.',
     ['bomba_rpc_object.hpp'], [('Future', 'bomba_rpc_object.hpp Future, FutureBase')],
     ['results of get and is_ready', 'requests and retrievals seen by the transport'], claim=TV, level_note=NOTE)

prop('C08', 'JSON-RPC requests are executed once and answered as the standard says',
     'Every JSON-RPC request naming an existing method with acceptable parameters executes it exactly once and, if it has an id, is answered with that id and either the result or the error; a request without id is executed without any answer, even if it fails, and a batch is answered with the array of the answers of its members in order. '
     'The order of the members of the request object does not matter, nor does the presence of additional members. '
     'Unparsable input and what is not a request (both with id null if none can be found), unacceptable parameters, an unknown method and a failing method are answered by an error object with a code and a message.',
     ['inputs'], 'every request object with its members in every order, with unknown members, string and numeric ids, notifications and batches',
     'Tests send members in one canonical order.',
     ['bomba_json_rpc.hpp', 'bomba_json.hpp'], [('request interpreter', 'bomba_json_rpc.hpp JsonRpcServerProtocol')],
     ['calls executed', 'response text'], claim=TV, level_note=NOTE)

prop('C09', 'JSON written is valid and reads back equal',
     'For every structure of finite numbers, flags, texts, lists and objects, the text written as JSON is valid JSON denoting exactly these values, and reading any valid JSON text gives the values it denotes, with every string escape and any whitespace. '
     'Skipping a value moves past exactly that value, whatever it contains, asking for a value\'s type names its type, and a text that ends within a string, list or object is reported as an error.',
     ['inputs'], 'all value trees (integers of full range, doubles, strings of any characters, arrays, objects) and all valid texts for them',
     'Tests compare a few fixed documents without escapes or extreme numbers.',
     ['bomba_json.hpp'], [('writer', 'bomba_json.hpp BasicJson::Output'), ('reader', 'bomba_json.hpp BasicJson::Input')],
     ['bytes written', 'values read', 'position after skipping'], claim=TV, level_note=NOTE)

prop('C10', 'Binary messages follow the documented layout and read back equal',
     'Every structure of values is written in the documented binary layout (sizes of numbers, length prefixes and member names as the format is configured) and reads back equal, both for known and for unknown object layouts. '
     'A truncated message is reported as an error, nothing beyond its end is ever read, and a text or list too long for the configured length prefix is refused instead of written wrongly.',
     ['inputs'], 'all value trees within the format\'s size limits; every truncation of their encodings',
     'Tests compare a few fixed messages.',
     ['bomba_binary_protocol.hpp', 'bomba_core.hpp'], [('binary format', 'bomba_binary_protocol.hpp BinaryFormat')],
     ['bytes written', 'values read', 'error reported'], claim=TV, level_note=NOTE)

prop('C11', 'Form-encoded arguments read back equal',
     'Flat structures of integers, real numbers, texts, flags and optional values written in URL form encoding read back equal in any order of fields, using only printable ASCII characters, the separators among them only as separators. '
     'Fields the reader does not know are skipped without affecting the others, and percent and plus escapes and numeric character references denote the characters the encoding assigns to them.',
     ['inputs'], 'all flat argument sets, field orders, additional fields and escape sequences',
     'Tests use fixed strings and one field order.',
     ['bomba_http.hpp'], [('form reader and writer', 'bomba_http.hpp HtmlMessageEncoding, mangleHttpResponse, demangleHttpResponse')],
     ['text written', 'values read'], claim=TV, level_note=NOTE)

prop('C12', 'Deserialisation updates exactly the members the message contains',
     'Reading a message into an object sets exactly the members the message contains to the values it carries, in whatever order they come, and leaves the others as they were; members the object does not have are ignored. '
     'Lists and maps end up with exactly the received elements, fixed arrays take as many as they have, and objects within them or in optional members are updated in the same way if they existed before and start from their defaults otherwise. Optional members become empty exactly if the message says so.',
     ['inputs', 'histories'], 'every initial object, every message with members missing, added, repeated or reordered, nested objects and containers',
     'Tests read complete messages in declaration order into fresh objects.',
     ['bomba_object.hpp', 'bomba_core.hpp', 'bomba_dynamic_object.hpp', 'bomba_json.hpp'],
     [('member dispatch', 'bomba_object.hpp Serialisable'), ('container readers', 'bomba_core.hpp TypedSerialiser')],
     ['object contents after reading'], claim=TV, level_note=NOTE)

prop('C13', 'Output buffers deliver exactly what was written to them',
     'Whatever mixture of characters, texts and byte blocks of any size is appended, an expanding buffer holds exactly their concatenation, a streaming buffer passes on exactly their concatenation in order by the time it is destroyed, and a fixed buffer holds the longest prefix that fits and never writes outside its storage. '
     'The reported size is the number of bytes accepted, and a cleared buffer behaves like a new one.',
     ['inputs', 'histories'], 'every sequence of append operations and clears, sizes around every growth boundary',
     'Tests append short strings to one buffer.',
     ['bomba_core.hpp'], [('buffers', 'bomba_core.hpp GeneralisedBuffer and its implementations')],
     ['contents, size and chunks passed to the writer'], claim=TV, level_note=NOTE)

prop('C14', 'File servers serve exactly the files under their root and nothing else',
     'A plainly written request path ("/dir/name", no empty parts, no part beginning with a dot or ending in two dots) is answered with the complete contents and the content type of the regular file it names under the root, and refused (404) if there is none, whatever the name, its extension or lack of one, and its size. '
     'A path written in any other way (dots, doubled or missing separators, zero bytes, absolute paths of the machine, too long names) is refused or answered like the plain path it is equivalent to; none reaches a file outside the root or a hidden one on the dynamic server, and none makes the server fail. "/" gives /index.html. '
     'A dynamic server serves the files that are there at the time of the request (other paths ending in a separator may get the start page too), and never makes up the rest of a file that gets shorter while being sent; a caching server serves exactly those that were there when it was set up or last reloaded, hidden ones too, byte by byte. Without symbolic links under the root.',
     ['inputs', 'configurations', 'histories'], 'every file tree and every request path, including absolute, dotted, doubled and missing separators, directly and over HTTP; files changed, added and removed meanwhile',
     'No test requests a path outside the root or a file without extension.',
     ['bomba_download_server.hpp'], [('path resolution', 'bomba_download_server.hpp DynamicFileServer, CachingFileServer')],
     ['bytes of the reply', 'refusal'], claim=TV, level_note=NOTE)

prop('C15', 'Cached and generated pages are always current',
     'A page added to a file server is answered with what was defined last for its path: the dynamic server runs its generator once for each request and sends all the parts it wrote in their order, the caching server sends the contents given to it. Later definitions replace earlier ones and files of the same path, pages outlive reloads of the caching server and are gone after its reset. '
     'While other threads request pages and files of a caching server that is being reloaded or gets new definitions, each request gets one complete version that was in place at some time during the request, and later requests do not get older ones.',
     ['histories', 'schedules'], 'every sequence of page definitions, requests, file changes, reloads and resets; every schedule of requests in several threads with reloads and definitions',
     'Tests request one generated page once, in one thread.',
     ['bomba_download_server.hpp'], [('pages', 'bomba_download_server.hpp addGeneratedFile'), ('cache and its lock', 'bomba_download_server.hpp CachingFileServer')], ['replies', 'runs of generators'], claim=TV, level_note=NOTE)

prop('C16', 'Every callable is reachable exactly by its own path',
     'In any tree of service objects built, moved and (for static service objects) copied or assigned in any order, with names that are not empty, differ among siblings and do not contain the separator, every callable is at the name and index it was given, runs its own function on its own object, and the path constructed for it leads back to it and to nothing else; paths that name nothing lead nowhere. '
     'A call made in the program goes to the client set on the callable or on the nearest object above it, under the path from the root, and runs the local function if there is no client.',
     ['inputs', 'programs', 'histories'], 'every tree shape, every set of names, every path string, every sequence of additions, moves, copies, assignments and changes of clients',
     'Tests resolve two fixed paths.',
     ['bomba_core.hpp', 'bomba_rpc_object.hpp', 'bomba_dynamic_object.hpp'],
     [('path resolution and construction', 'bomba_core.hpp PathWithSeparator'), ('children', 'bomba_rpc_object.hpp RpcObject, bomba_dynamic_object.hpp DynamicRpcObject'),
      ('storage of functions and objects', 'bomba_dynamic_object.hpp RpcLambdaHolder'), ('choice of client', 'bomba_core.hpp IRemoteCallable::getResponder')],
     ['callable found', 'path constructed', 'function run', 'client used'], claim=TV, level_note=NOTE)

prop('C17', 'The service description lists exactly the callable methods and types',
     'The generated JSON-WSP description of a tree of service objects (with names free of dots) is valid JSON and lists exactly the methods that can be called, each under the path it is called by, with exactly its parameters in order, their types and optionality and its return type. '
     'It lists each structured type it mentions exactly once, with exactly its members and their types, including types that are only reachable through other types, arrays and optional values.',
     ['programs', 'inputs'], 'every set of structured types, every tree of static, dynamic and custom service objects, every name and description', 'Four fixed descriptions are compared.',
     ['bomba_json_wsp_description.hpp', 'bomba_rpc_object.hpp', 'bomba_dynamic_object.hpp', 'bomba_object.hpp', 'bomba_core.hpp'],
     [('description writer', 'bomba_json_wsp_description.hpp'), ('descriptions of methods', 'bomba_rpc_object.hpp RpcLambdaParent::info'), ('listing of types', 'bomba_core.hpp TypedSerialiser, bomba_object.hpp addMemberType')],
     ['description text', 'methods that can be called'], claim=TV, level_note=NOTE + ' The programs (types, methods and objects) are generated at random and compiled for each run.')

prop('C18', 'HTTP requests to methods run the named method once with their arguments',
     'A GET request with a query or a form POST request whose path names a method runs exactly that method exactly once with the arguments it carries, whatever their order; a JSON-RPC POST reaches the JSON-RPC service; everything else runs no method. '
     'If the path also names a file, the file is the reply, otherwise the method\'s result is.',
     ['inputs', 'configurations'], 'every path, query, content type and combination of files and methods', 'Tests send one request of each kind.',
     ['bomba_http.hpp', 'bomba_json_rpc.hpp', 'bomba_download_server.hpp'],
     [('dispatch', 'bomba_http.hpp RpcGetResponder, PostResponder')], ['methods run', 'reply'], claim=TV, level_note=NOTE)

prop('C19', 'Binary RPC requests are framed exactly by their announced size',
     'Each complete binary request runs its method exactly once with its arguments and gets exactly one response carrying its token, in order, however the stream is split; a request is interpreted using only the bytes its announced size covers, and the next one starts right after them. '
     'A request that cannot be carried out closes the connection without running a method twice or answering wrongly.',
     ['inputs', 'histories', 'schedules'], 'every sequence of requests and every division of its bytes', 'Tests send whole single requests.',
     ['bomba_binary_protocol.hpp'], [('server', 'bomba_binary_protocol.hpp BinaryProtocolServer')], ['methods run', 'responses', 'reaction'], claim=TV, level_note=NOTE)

prop('C20', 'Connections of a TCP server are served independently',
     'However clients connect, send (in whatever pieces), stall, disconnect or reset, also while being replied to, and also if a responder throws or a connection temporarily cannot be accepted: every client that stays connected and keeps reading gets the complete replies to all of its own requests in order and nothing else; a connection whose message is refused or whose responder throws is closed after the replies to the requests before; ending one connection never disturbs another, stops the server or the accepting of further ones, or ends the process.',
     ['schedules', 'histories', 'fault_sequences'], 'every interleaving of connections, partial requests, large replies, orderly and abortive disconnections, half-closes, throwing responders and failed accepts, driven by one thread (run() or runARound())',
     'The network test uses one client that behaves.',
     ['bomba_tcp_server.hpp'], [('session table and sending', 'bomba_tcp_server.hpp TcpServer'), ('receiving', 'bomba_tcp_server.hpp TcpServerBuffer')], ['bytes received by clients', 'ends of connections', 'server alive'],
     claim=TV, level_note=NOTE)

prop('C21', 'The JavaScript client exchanges the values the classes declare',
     'Having loaded the description of a service from the server it is told to use, the JavaScript client library offers every described method (the names being identifiers that are not reserved). Each call whose arguments have the declared types, nested members and elements of arrays included, is sent to that server as one JSON-RPC request with a fresh id, the method\'s path and exactly the given parameters (optional ones may be left out) with the values their types declare, members of classes included; other calls are rejected without sending anything. A call resolves with the result or is rejected with the error of the response to its own request, in whatever order responses come.',
     ['inputs', 'histories'], 'every declared interface and argument set, every order of responses', 'There is no test of the JavaScript client.',
     ['public_html/bomba.js'], [('client', 'public_html/bomba.js')], ['requests sent', 'promises'], claim=TV, level_note=NOTE)
prop('C22', 'Generated forms call each method with the values entered into them',
     'The forms the JavaScript client generates for a method, a group of methods or a whole service have a form for every method, with a field for each number, text and flag it takes, in the order of the parameters, members of classes included. Pressing the button of a form calls its method exactly once with the values that are in its fields at that time (arrays and objects with any keys being empty), whatever was pressed before and whichever responses are still missing; the result of the call, if it is a number, text or flag, is displayed in that form and in no other, and no result (null) does not change what is displayed.',
     ['inputs', 'histories'], 'every declared interface, every sequence of entering, pressing and responding', 'There is no test of the JavaScript client.',
     ['public_html/bomba.js'], [('client', 'public_html/bomba.js')], ['forms', 'requests sent', 'texts displayed'], claim=TV, level_note=NOTE)
