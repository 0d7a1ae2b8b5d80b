def fill(prop):
    prop(
        "C01",
        "Fragmentation of messages is lossless",
        "Whatever the size of a message and whatever the fragment size limit, the fragments the client produces for it carry one non-zero object id unused by any earlier message, fragment ids 0,1,2,... and the start/end mark on exactly the first/last fragment, and their blobs concatenate to exactly the message's bytes. When several messages are batched together they come out in order, none lost, duplicated or split across a payload boundary in a way the receiver cannot parse. Reassembling the produced fragments gives the original message back.",
        ["inputs", "configurations"],
        "all message sizes, all fragment size limits larger than the fragment header, all batches of messages",
        "Tests use two or three fixed messages and sizes; the arithmetic at the exact boundary between fragments and payloads depends on the size of every message and of the limit.",
        ["powershell.py", "messages.py"],
        [("fragmenting and packing", "powershell.py: class Fragmenter, Fragment.pack"), ("message header", "messages.py: Message.pack")],
        observe=["bytes of the PSRP payloads sent to the server"],
    )
    prop(
        "C02",
        "No request exceeds the maximum envelope size in force",
        "Every packed fragment and every payload of batched fragments is at most the fragment size limit including its header, and every request envelope sent for opening a pool, starting a pipeline and sending its input is at most the maximum envelope size configured, which is the size advertised in the request header. When the server's protocol version is 2.2 or later and the default envelope size was in use, the size is raised to 500 KiB for later requests, which then use it and do not exceed it; otherwise it stays as configured. When the server is asked for the size it is configured with, exactly that size is taken over.",
        ["inputs", "configurations", "histories"],
        "all envelope sizes, endpoints, locales, script and input sizes, server protocol versions",
        "Tests check one payload size against a constant; no test looks at the length of a request, and the size depends on header fields, base64 rounding and on negotiation during open.",
        ["powershell.py", "wsman.py"],
        [("fragment size", "powershell.py: Fragmenter, RunspacePool._process_session_capability"), ("payload size from envelope size", "wsman.py: WSMan._calc_envelope_size, update_max_payload_size")],
        observe=["length of the serialised request handed to the HTTP transport"],
    )
    prop(
        "C03",
        "Reassembly is right under any interleaving and rejects gaps",
        "However the fragments of several incoming messages are cut, interleaved and grouped into received payloads, each message is delivered exactly once, unaltered, as soon as its last fragment has arrived and in the order of those last fragments. A fragment that is not the next one expected for its message raises an error and is never merged.",
        ["schedules", "inputs", "histories"],
        "all cut points, all interleavings, all groupings into payloads, all object and fragment ids",
        "Tests replay recorded traffic in which messages arrive one after another; the interleavings and cut points are unbounded.",
        ["powershell.py", "messages.py"],
        [("reassembly", "powershell.py: Fragmenter.defragment, Fragment.unpack")],
        observe=["messages returned for received payloads", "FragmentError"],
    )
    prop(
        "C04",
        "Fragment and message headers are encoded exactly as MS-PSRP defines",
        "Packing a fragment or a message yields the header layout of MS-PSRP (big-endian 64 bit object and fragment ids, flag byte, 32 bit blob length; little-endian destination and message type, little-endian GUIDs) for every value of the fields, and unpacking is its inverse, also when bytes of the next fragment follow. Every message type has the number MS-PSRP assigns to it and is decoded to the matching kind of message.",
        ["inputs"],
        "all values of the 64 bit ids, flags, lengths, GUIDs, payload bytes; all message types",
        "Tests compare a few recorded headers in which most bytes are zero, so a lost byte, wrong width or wrong byte order of a field goes unnoticed.",
        ["powershell.py", "messages.py"],
        [("fragment header", "powershell.py: class Fragment"), ("message header and types", "messages.py: class Message, MessageType, Destination")],
        observe=["bytes sent to and accepted from the server"],
    )
    prop(
        "C05",
        "Text escaping is reversible and leaves only legal XML",
        "Every string is encoded with exactly the _xHHHH_ escapes of MS-PSRP (control characters, UTF-16 code units of supplementary characters, an underscore that would start an escape), so that the encoded text contains only characters XML can carry and decoding it gives the original string back. Decoding accepts every escape in either letter case, joins surrogate pairs, keeps text that is no escape as it is, and never fails on any text.",
        ["inputs"],
        "all Unicode strings; all texts a server can send",
        "Tests round-trip a few dozen fixed strings; which substrings look like an escape, and at which byte offset, depends on every character.",
        ["serializer.py"],
        [("encoding", "serializer.py: Serializer._serialize_string"), ("decoding", "serializer.py: Serializer._deserialize_string")],
        note="Lone surrogates on the sending side and U+FFFE/U+FFFF (which XML cannot carry) are outside the property.",
        observe=["text of the CLIXML element", "string returned for a received element"],
    )
    prop(
        "C06",
        "Primitive values survive serialization with their type",
        "Every primitive value is sent under the tag of its type with the text form MS-PSRP defines (decimal digits, true/false, base64, character code, GUID text) and a value received under any primitive tag is returned as the same value: no integer is truncated, booleans are not integers, an empty byte array or text is not null and null is null under every tag.",
        ["inputs"],
        "all values of every primitive type and tag",
        "Tests check one or two values per tag; signs, widths, empty values and explicitly tagged values multiply.",
        ["serializer.py"],
        [("primitives", "serializer.py: Serializer.serialize, Serializer.deserialize, _get_tag_from_value")],
        note="Floating point texts, dates, durations and decimals are only passed through as text.",
        observe=["CLIXML element", "deserialized value"],
    )
    prop(
        "C07",
        "Containers keep their kind, entries, order and the caller's object",
        "Lists, dictionaries, queues and stacks, however nested, are sent in the container element and with the type names of their kind, with every entry once, in order and under its own tag, with object ids unique in the document. Reading them back gives equal containers. Serializing leaves the caller's object and metadata as they were, so sending it again gives the same. Containers sent by a server under any of the known type names are read back entry by entry, also when the kinds of entries are mixed.",
        ["inputs", "configurations"],
        "all nestings of containers, all kinds and orders of entries, all known server type names",
        "Tests serialize a few fixed containers once each; kind of entry, order, nesting, type name and reuse of an object combine.",
        ["serializer.py", "complex_objects.py"],
        [("containers", "serializer.py: _serialize_lst, _serialize_que, _serialize_stk, _serialize_dct and their inverses"), ("choice by type name", "serializer.py: Serializer.deserialize"), ("metadata", "complex_objects.py: ListMeta, QueueMeta, StackMeta, DictionaryMeta")],
        note="Object without type names behind a primitive in a list: known finding.",
        observe=["CLIXML document", "deserialized value", "the caller's object after the call"],
    )
    prop(
        "C08",
        "Object graphs keep identity, type names and property names",
        "An object is sent with its own complete list of type names, its display string and every property under its own (escaped) name in the section it belongs to; reading that back gives the same. An object reachable several times, or from itself, is sent in full once and by reference afterwards, each reference under the property it is the value of, and the graph read back has the same sharing. References to objects and type names in a document resolve within that document only.",
        ["inputs", "histories"],
        "all object graphs, all type name lists, all property names and values, all sequences of documents",
        "Tests serialize fixed trees; sharing, cycles, equal first type names and unusual property names are combinations they do not reach.",
        ["serializer.py", "complex_objects.py"],
        [("objects", "serializer.py: _serialize_obj, _serialize_dynamic_obj, _deserialize_obj, _deserialize_dynamic_obj"), ("references", "serializer.py: _create_obj, _create_tn, _get_types_from_obj, _clear")],
        observe=["CLIXML document", "deserialized object graph"],
    )
    prop(
        "C09",
        "Every field of every PSRP message is read from and written to its place",
        "Each field of each message a server can send ends up, with its value, in the attribute documented for it: a field that is absent is None, a mandatory field that is absent is an error, and neither the order of the fields, unknown fields, references to type names nor fields of the same name in nested objects matter. Each message the client sends carries exactly the fields MS-PSRP defines, under their names and tags, with the values given.",
        ["inputs"],
        "all message kinds, all values and presence combinations of their fields",
        "Tests deserialize a handful of recorded messages; which fields are absent, their order and values near the integer limits are not varied.",
        ["messages.py", "complex_objects.py", "serializer.py"],
        [("messages", "messages.py: all message classes"), ("records inside messages", "complex_objects.py: ErrorRecord parts, InformationalRecord, RemoteHostMethodIdentifier, CommandMetadata")],
        observe=["attributes of the message objects", "CLIXML documents sent"],
    )
    prop(
        "C10",
        "The pipeline a user builds is the pipeline the server is told to run",
        "The create-pipeline message holds exactly the statements, commands, arguments and parameters of the builder calls, in order, each with its value and type, whether it is a script, its local scope and its merge settings; add_statement separates statements and nothing else does; sending again after more calls, or after clear_commands, sends the right ones. Merge calls affect only the last command and the streams named, and are refused, changing nothing, for targets not allowed or streams the server's protocol does not know. Options of the invocation (history, host, apartment state, stream options, redirect, nested) are sent as given.",
        ["inputs", "histories", "configurations"],
        "all sequences of builder calls and invocations, all argument values, all options and protocol versions",
        "Tests build a few fixed pipelines against recorded requests; sequences of calls, reuse of the object and combinations of options are unbounded.",
        ["powershell.py", "complex_objects.py", "serializer.py"],
        [("builder", "powershell.py: PowerShell.add_*, merge_*, _set_merge_to, begin_invoke"), ("wire form", "complex_objects.py: Pipeline, Command, CommandParameter")],
        note="A queue passed as an argument of a command is a known finding.",
        observe=["create-pipeline message sent to the server"],
    )
    prop(
        "C11",
        "Secure strings only travel encrypted with the exchanged session key",
        "A secure string is sent as AES-CBC over the padded UTF-16LE text with the session key the server wrapped for the client's public key, and is refused as long as there is no key; a received one is decrypted to exactly the text sent. The public key and session key use the blob layouts of MS-PSRP. The exchange happens once per pool, on request of client or server, survives other messages, empty responses and operation timeouts in between, and is given up exactly when the configured time has passed without a key; one that failed tells the caller and can be done again, and a session key that comes late or twice does no harm.",
        ["inputs", "schedules", "histories"],
        "all texts, keys and blobs; all orders of messages and timeouts around the exchange; all timeouts",
        "Tests exchange one recorded key and short ASCII texts; block boundaries, supplementary characters, other traffic and timing are not varied.",
        ["powershell.py", "serializer.py", "messages.py"],
        [("exchange", "powershell.py: RunspacePool.exchange_keys, _process_encrypted_session_key"), ("encryption", "serializer.py: _serialize_secure_string, _deserialize_secure_string")],
        note="RSA and AES are stand-ins in the symbolic runs; concrete replays of the exchange use the real ones.",
        observe=["PublicKey message", "SS element", "error raised without a key or at the time limit"],
    )
    prop(
        "C12",
        "Output and stream records arrive once, in order, in the right place",
        "Everything the server sends for a pipeline - output of any value, error, warning, verbose, debug, progress and information records - is delivered exactly once, unchanged and in the server's order, in the list of its own kind of its own pipeline, however it is grouped into payloads and however quiet receives, operation timeouts, pool messages and messages of other pipelines are mixed in. The pipeline ends in the state the server gave, failure records included. Further invocations append; clear_streams empties the lists and leaves those handed out before alone. Messages for the pool are kept, reported or applied.",
        ["schedules", "inputs", "histories"],
        "all sequences and groupings of messages for all pipelines of a pool",
        "Tests replay recorded traffic in one order; interleavings with pool messages, timeouts and other pipelines are not covered.",
        ["powershell.py", "shell.py", "messages.py"],
        [("dispatch", "powershell.py: RunspacePool._receive, _parse_responses, PowerShell.poll_invoke, _process_*"), ("receive", "shell.py: WinRS.receive")],
        observe=["PowerShell.output, streams, state, had_errors", "RunspacePool.user_events, application_private_data, warnings"],
    )
    prop(
        "C13",
        "A runspace pool only does what its state allows and ends up closed",
        "Opening, connecting, disconnecting, resetting, resizing and closing a pool are possible in exactly the documented states, send exactly the requests that belong to them, directed at the pool's shell, and lead to the right state; in other states they raise an error that names the state and the ones needed, and send nothing. A request the server refuses leaves the state as it was. Opening returns only when the server has given a state, however long that takes it, and takes over what the server announced. The shell is created as configured. Leaving a with block closes the pool exactly once whatever happened in it.",
        ["histories", "schedules", "configurations"],
        "all sequences of operations, refusals, server states and message orders; all configurations",
        "Tests perform one or two operations on a pool in one state against recorded traffic.",
        ["powershell.py", "shell.py"],
        [("states", "powershell.py: RunspacePool.open, close, connect, disconnect, reset_runspace_state, min_runspaces, __exit__"), ("shell", "shell.py: WinRS.open, close")],
        observe=["RunspacePool.state", "requests sent to the server", "exceptions"],
    )
    prop(
        "C14",
        "A pipeline runs, stops, disconnects and reconnects as its state allows",
        "Beginning, polling, ending, stopping, disconnecting and reconnecting a pipeline are possible in exactly the documented states, send exactly the requests that belong to them, directed at this pipeline's command - by the id the server gave it - and leave it in the right state; in other states, or when the server refuses, they raise and the pipeline stays what it was. The state and output of a pipeline never depend on what other pipelines of the pool do. Polling waits no longer than the time asked for.",
        ["histories", "schedules", "configurations"],
        "all sequences of operations, refusals and server answers; several pipelines of a pool",
        "Tests invoke or stop one pipeline against recorded traffic in which the server echoes the client's own ids.",
        ["powershell.py", "shell.py"],
        [("states", "powershell.py: PowerShell.begin_invoke, poll_invoke, end_invoke, stop, connect, connect_async, RunspacePool.disconnect"), ("commands", "shell.py: Process, SignalCode")],
        observe=["PowerShell.state and output", "requests sent to the server", "exceptions"],
    )
    prop(
        "C15",
        "Pipeline input reaches the server once, in order, with its end",
        "Every object given as pipeline input - a single value, a list, a generator, any mixture of sizes and kinds - is sent exactly once, in order, to the pipeline it is for, each request within the size allowed, followed by exactly one end-of-input message; without input the pipeline is told there is none and nothing is sent. If the caller's generator fails, its error reaches the caller.",
        ["inputs", "schedules"],
        "all inputs: kinds, numbers and sizes of objects, generators, failures at any point",
        "Tests send a few short fixed inputs; where the boundaries between fragments and requests fall depends on the size of every object.",
        ["powershell.py", "shell.py"],
        [("input", "powershell.py: PowerShell.begin_invoke, Fragmenter.fragment_multiple"), ("send", "shell.py: WinRS/Process.send")],
        observe=["PIPELINE_INPUT and END_OF_PIPELINE_INPUT messages sent", "exceptions"],
    )
    prop(
        "C16",
        "Runspace count and reset requests follow the server's own answer",
        "Asking for another minimum or maximum, for the number of available runspaces or for a reset sends one message with that value and a call id not used before, waits until the answer with this call id has come whatever else arrives first and however long it takes, and changes the pool's minimum or maximum exactly when the server granted it; a refusal raises. The number of available runspaces is the one the server told. A late or repeated answer to an earlier request is not taken for this one's and fails nothing. Reset is refused for servers older than protocol 2.3.",
        ["histories", "schedules", "inputs"],
        "all sequences of requests, values, answers, and other messages before the answer; all protocol versions",
        "Tests perform one request each with the recorded answer following at once.",
        ["powershell.py", "messages.py"],
        [("requests", "powershell.py: RunspacePool.min_runspaces, max_runspaces, get_available_runspaces, reset_runspace_state, _process_runspace_availability")],
        observe=["messages sent", "RunspacePool.min_runspaces and max_runspaces", "exceptions"],
    )
    prop(
        "C17",
        "Host calls reach the right host method once and are answered",
        "A host call of the server, for a pool or a pipeline, invokes exactly the method of the host it names, once, with the decoded arguments, and the value the host returns is sent back in one response of the right kind with the call's id; calls without a return value get no response; calls of unknown methods, or without a host, call nothing and never end the session. The default host keeps what it was told (colours, positions, window title, sizes), collects everything written to it in order, and describes itself to the server completely. Multi-dimensional arrays in host calls keep their shape and elements.",
        ["inputs", "histories"],
        "all host methods, argument values, call ids, orders of calls, host configurations and arrays",
        "Tests call each host method with one fixed set of arguments and cover a few calls in recorded traffic.",
        ["host.py", "powershell.py", "messages.py", "complex_objects.py"],
        [("dispatch", "powershell.py: _process_runspacepool_host_call, _process_pipeline_host_call; host.py: PSHost.run_method"), ("host", "host.py: PSHostUserInterface, PSHostRawUserInterface"), ("arrays and host info", "complex_objects.py: HostInfo, BufferCell, _get_dict_value and the array forms")],
        observe=["calls received by the host", "host response messages", "HostInfo sent"],
    )
    prop(
        "C18",
        "Nothing readable leaves without TLS, and encrypted answers are read whole",
        "Over HTTP every message is sent only encrypted, in the multipart form of its protocol with its true length, unless the user chose encryption 'never'; over HTTPS messages are encrypted exactly when the user chose 'always'; a combination of authentication and encryption that cannot do this, or an unknown setting, is refused when the connection is made. What is sealed is the whole message (for CredSSP in parts of at most 16 KiB that together are the message) and an encrypted answer is decrypted part by part and joined in order, whatever delimiter the server chose and in whatever order it gives the parameters of the content type; a part of another length than announced is an error.",
        ["inputs", "configurations"],
        "all messages, answers, signature sizes, authentications, encryption settings and delimiters",
        "Tests encrypt one short fixed message per protocol; which bytes lie in which part depends on the length of the message, and recorded traffic has one delimiter and one order of parameters.",
        ["encryption.py", "wsman.py"],
        [("parts", "encryption.py: WinRMEncryption.wrap_message, unwrap_message"), ("policy", "wsman.py: _TransportHTTP.__init__, send, _send_request")],
        observe=["body and headers handed to the HTTP session", "value returned by _TransportHTTP.send", "ValueError, WinRMError"],
    )
    prop(
        "C19",
        "A request is only repeated when it may be, afresh, and within its time",
        "Only a receive is sent again after a connect or read timeout, at most as often as configured, each time as the same message sealed for the current security context, which is set up anew after a connection was dropped; every other failure, and the last timeout, reaches the caller as what it was. Every other request is sent once. The time limit on each HTTP request is the configured one for connecting, and for reading never shorter than the time the server was given to answer.",
        ["histories", "schedules", "configurations"],
        "all sequences of fates of the requests (answered, timed out, refused, HTTP errors), all numbers of retries and timeouts, several messages in a row",
        "Tests inject one failure at one point; duplication or loss depends on the sequence of failures and on the state they leave behind.",
        ["wsman.py"],
        [("repeating", "wsman.py: WSMan.invoke, _TransportHTTP.send, _send_request"), ("session", "wsman.py: NewConnectionDisabled, Retry settings")],
        observe=["requests handed to the HTTP session with their timeout", "exceptions", "pauses between attempts"],
    )
    prop(
        "C20",
        "The caller gets the answer to its own request or the server's true error",
        "The content of a response is returned exactly when the response says that it belongs to this request. A fault reaches the caller as WSManFaultError with the code, machine, reason and provider details the server gave, those of the WSMan fault before those of the SOAP fault; HTTP 401 is an authentication error; every other error response is a transport error with its status and content. Nothing the server answers is taken for success by mistake.",
        ["inputs"],
        "all operations, response contents, relations between request and response, faults with any part missing, HTTP error codes and contents",
        "Tests use a dozen recorded faults; each part of a fault may be missing, blank or different in both places.",
        ["wsman.py", "exceptions.py"],
        [("responses", "wsman.py: WSMan.invoke, _parse_wsman_fault"), ("errors", "wsman.py: _TransportHTTP._send_request; exceptions.py: WSManFaultError, WinRMTransportError")],
        observe=["value returned by the WSMan operations", "attributes and text of the exceptions"],
    )
    prop(
        "C21",
        "A WSMan request says exactly what the caller asked",
        "The request for every WSMan operation carries, once each and exactly as given: its action, the endpoint it goes to, the resource, a message id used for no other request, the session id that is the same for all requests of a connection, the locales, the maximum envelope size, the operation timeout (the caller's or the connection's), every option with its attributes and every selector in order, and the content; without options or selectors it carries none.",
        ["inputs", "configurations"],
        "all operations, names and values of options and selectors, locales, URIs, timeouts, sizes and contents",
        "Tests compare single requests with recordings whose values are fixed.",
        ["wsman.py"],
        [("header", "wsman.py: WSMan._create_header, invoke"), ("sets", "wsman.py: OptionSet, SelectorSet, _WSManSet")],
        observe=["request handed to the transport"],
    )
    prop(
        "C22",
        "WinRS shells and processes give back what the command wrote",
        "A shell is created exactly as configured, all requests for it are directed at what the server created, and it is deleted exactly once, also when a with block ends in an exception, unless it could not be created. A process is started with exactly its command and arguments, and its input and signals go to it unaltered. Invoking returns when the process has ended, with everything it wrote to each stream in order, and its exit code. Polling takes one result of its own process within the time given; an operation timeout of the server changes nothing, and any other fault reaches the caller and changes nothing.",
        ["inputs", "histories", "schedules", "configurations"],
        "all configurations, commands, inputs, sequences of results, timeouts and refusals",
        "Tests run a few commands against recorded traffic in which the output arrives in one or two pieces.",
        ["shell.py", "wsman.py"],
        [("shell", "shell.py: WinRS.open, close, receive, send, signal, command"), ("process", "shell.py: Process.begin_invoke, poll_invoke, end_invoke, invoke, signal")],
        observe=["requests sent to the server", "Process.stdout, stderr, rc, state", "exceptions"],
    )
    prop(
        "C23",
        "A copied file arrives as it is, at the path given, or the caller is told",
        "Copying sends the whole content of the local file, in order and complete, to the script shipped with the library, with the destination exactly as given and the hash of that content, through the input of one pipeline in pieces the server accepts; nothing else is sent and every pool that was opened is closed. The path the server reports is returned; a failed script is an error that carries what the server said, its warnings are passed on, and a source that cannot be read sends no content.",
        ["inputs", "configurations", "histories"],
        "all contents and lengths within the bounds, source paths, destinations and answers of the server",
        "Tests copy two files against recorded traffic that is not compared with the content.",
        ["client.py", "powershell.py", "_utils.py"],
        [("sending", "client.py: Client.copy; powershell.py: PowerShell.begin_invoke"), ("script", "_utils.py: get_pwsh_script; pwsh_scripts/copy.ps1")],
        note="copy.ps1 itself runs on the server and is not executed. A file that changes while it is copied is not considered.",
        observe=["input and script of the pipeline the server received", "value returned by Client.copy, WinRMError, warnings"],
    )
    prop(
        "C24",
        "A fetched file is written exactly or not at all",
        "Fetching asks for the path exactly as given and leaves at the destination exactly the bytes the server sent, whatever was there before; when the content does not match the hash the server told, when the script fails or when anything on the way fails (also while writing), the caller gets an error and the destination is as it was before; no temporary file remains and every pool that was opened is closed.",
        ["inputs", "crash_points", "configurations"],
        "all contents, ways of splitting them, hashes, failing scripts, and points at which the disk is full",
        "Tests fetch two files; nothing fails half way.",
        ["client.py"],
        [("fetching", "client.py: Client.fetch")],
        note="The file system is a model in the solver's run and a scratch directory in replays. fetch.ps1 itself runs on the server and is not executed.",
        observe=["content of the destination and of the temporary directory", "WinRMError", "script the server received"],
    )
    prop(
        "C25",
        "Client commands give back the output, errors and result of what ran",
        "execute_cmd runs exactly the command given in a shell with the environment given and returns its standard output and error as text and its exit code; execute_ps runs exactly the script given and returns its output as text, its streams and whether it had errors; every shell or pool that was opened is closed, also when the server refuses. CLIXML error output of PowerShell processes is turned into the text of its error records in order; other text is returned as it is.",
        ["inputs", "histories", "configurations"],
        "all commands, scripts, environments, outputs, splits of the output, exit codes, error texts and refusals within the bounds",
        "Tests run a handful of commands; texts which need escaping, empty output and refusals in the middle are not among them.",
        ["client.py", "shell.py", "powershell.py"],
        [("cmd", "client.py: Client.execute_cmd"), ("ps", "client.py: Client.execute_ps"), ("errors", "client.py: Client.sanitise_clixml")],
        observe=["values returned by the Client", "requests sent to the server"],
    )
    prop(
        "C26",
        "The server is reached where and how the caller said",
        "The endpoint is made of the scheme, server (IPv6 addresses in brackets), port and path given, with WinRM's ports as defaults; the request goes through the proxy given, else the one the environment names unless that is forbidden; the server's certificate is validated exactly as asked and never less; client certificates, user names, passwords and CredSSP settings are used exactly as given, and whatever is needed and missing is an error before anything is sent. Failed connections are tried again as often as configured, requests that may have arrived never. All requests of a connection go through one session, which is closed when the caller closes the connection or leaves the with block.",
        ["inputs", "configurations", "histories"],
        "all servers, ports, paths, proxies, environments, certificate settings, credentials and sequences of failing connections within the bounds",
        "Tests look at attributes of objects built from a few settings; combinations with the environment are not sent anywhere.",
        ["wsman.py", "_pool_manager.py", "client.py"],
        [("session", "wsman.py: _TransportHTTP.__init__, _build_session, _build_auth_*, _create_endpoint"), ("adapter", "_pool_manager.py: create_request_adapter")],
        note="The real requests session runs; its HTTPAdapter.send is replaced. Names which are IP addresses are a choice of spellings, other names are opaque.",
        observe=["request handed to the HTTP adapter, and its proxies, verify and cert", "headers", "exceptions"],
    )
    prop(
        "C27",
        "Negotiate, Kerberos and NTLM are used as asked, bound to the channel",
        "The scheme used is one the server offers and the protocol the one asked for; where none fits the caller is told and no token is sent. The security context is made for exactly the credentials, service and host given, delegates and binds the channel exactly when asked, and asks for message encryption exactly when that is used. The binding is the hash of the server's certificate that RFC 5929 asks for. Tokens go back and forth in order and unaltered, on one connection, until the context is complete; the last answer is the answer.",
        ["inputs", "configurations", "histories"],
        "all settings, offers of the server, tokens, numbers of rounds and certificates within the bounds",
        "Tests run one exchange with fixed tokens and compare hashes of a few certificates.",
        ["negotiate.py", "wsman.py"],
        [("exchange", "negotiate.py: HTTPNegotiateAuth.handle_401"), ("binding", "negotiate.py: HTTPNegotiateAuth._get_cbt_data, _get_certificate_hash"), ("options", "wsman.py: _build_auth_negotiate, _build_auth_kerberos, _build_auth_ntlm")],
        note="The security provider (spnego) and the certificate loader are stand-ins that record what they are given.",
        observe=["arguments of spnego.client", "requests and their headers", "answer given to the caller", "exceptions"],
    )
    prop(
        "C28",
        "Pools left by another client are found and taken over",
        "Every PowerShell shell on the server, and no other, becomes one disconnected pool with its id and resource URI, and every command in it one disconnected pipeline, in the order of the server; nothing but enumerations is sent. Connecting negotiates with that shell, takes over its counts, private data and versions however long the server takes to tell them, and leaves the pool opened; its pipelines can be connected to and give their output; whatever is asked goes to that shell, and closing deletes it once. A refusal leaves the pool disconnected so that it can be tried again.",
        ["inputs", "histories", "schedules"],
        "all sets of shells and commands within the bounds, answers and their grouping, refusals and outputs",
        "Tests replay two recordings with one shell.",
        ["powershell.py", "shell.py"],
        [("find", "powershell.py: RunspacePool.get_runspace_pools, create_disconnected_power_shells"), ("connect", "powershell.py: RunspacePool.connect, _connect_new_client; PowerShell.connect, connect_async")],
        observe=["requests sent to the server", "pools and pipelines returned, their state and output"],
    )
    prop(
        "C29",
        "Asking whether a pool is alive tells the truth and costs one request",
        "A pool is alive exactly when the server still has it and nobody disconnected it. One question is sent, which waits no longer than asked for and makes no new connection; a pool that is gone is closed without another request, and an error that says nothing about the pool reaches the caller and changes nothing. While new connections are forbidden none is made, whichever adapter of pypsrp it is for; before and after, also after an exception, every one is.",
        ["inputs", "histories", "configurations"],
        "all states, faults and failures of the connection, timeouts, and sequences of forbidding, allowing and connecting within the bounds",
        "Tests cover a handful of answers and one nesting.",
        ["powershell.py", "shell.py", "_pool_manager.py"],
        [("alive", "powershell.py: RunspacePool.is_alive; shell.py: WinRS._get_shell"), ("connections", "_pool_manager.py: DisableNewConnectionsContext, create_request_adapter")],
        observe=["value of is_alive, state of the pool", "requests and timeouts", "connections made"],
    )
    prop(
        "C30",
        "Command metadata is asked for and returned exactly",
        "Asking a pool for command metadata sends one message with exactly the names, command types, namespaces and arguments given (all types, no namespaces and no arguments by default), for each question anew, and returns one object per command the server described, in its order, with exactly its name, namespace, help, type, output types and parameters. A question the server fails or stops is an error and leaves the pool usable; only an opened pool is asked.",
        ["inputs", "histories", "configurations"],
        "all names, types, namespaces, arguments and answers within the bounds",
        "Tests look at names of the commands in three recorded answers.",
        ["powershell.py", "messages.py", "complex_objects.py", "serializer.py"],
        [("question", "powershell.py: RunspacePool.get_command_metadata; messages.py: GetCommandMetadata"), ("answer", "complex_objects.py: CommandMetadata, ParameterMetadata, CommandType; serializer.py: Serializer.deserialize")],
        observe=["message the server received", "objects returned, exceptions"],
    )
    return []
