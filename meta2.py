prop("C10", "The advertiser answers every standard query with exactly the matching records",
     "To a standard query the advertiser answers, for each question in turn, with exactly those of its registered host, service and instance records whose name, type and class the question matches, in a response that echoes the query's id, has the authoritative bit set and carries class IN and a TTL of 120 s. It stays silent towards responses, other opcodes, non-zero response codes and questions nothing matches, and reports malformed queries as errors.",
     ["inputs", "configurations"], "every query datagram and every set of registered names and instances",
     "no test runs the advertiser at all", [ADV, S], M(("record database", ADV + ":Advertiser::add_instance"), ("query handling", ADV + ":Advertiser::handle_packet")), ["Advertiser::handle_packet"])
prop("C11", "The advertiser survives any datagram and carries nothing over",
     "Whatever datagrams an advertiser has received before, its response to the next one is the one a fresh advertiser with the same registrations gives, and no datagram makes it panic. Responses never exceed the mDNS buffer size, and one that would is sent cut at that size with the truncation bit set.",
     ["inputs", "histories"], "every sequence of datagrams", "no test feeds the advertiser more than nothing", [ADV, E], M(("response buffer", ADV + ":response_buf"), ("truncation", ADV + ":handle_packet")), ["Advertiser::handle_packet"])
prop("C12", "What one side advertises the other side discovers",
     "Browsing for a service type finds exactly the advertised instances of that type, browsing service types finds the advertised types, and asking for an instance's details returns the host and port it was registered with; resolving an advertised host name yields its address.",
     ["inputs", "configurations"], "every registered instance name, service name, host, port and address",
     "there is no end-to-end test", [ADV, DIS, RES, S], M(("advertising", ADV), ("discovery", DIS), ("resolution", RES)), ["SyncDiscoverer", "SyncResolver", "Advertiser"])
prop("C13", "Service names are taken apart from pointer records exactly",
     "A pointer record names a service type or a service instance exactly by its first labels, and is refused when labels are missing, when no domain follows, or when the transport is neither TCP nor UDP. Types and instances keep their labels, compare and display by them, and cannot be constructed with a name that does not start with an underscore.",
     ["inputs"], "every domain name in a pointer record", "no test covers it", [S], M(("Service::from_ptr", S), ("ServiceInstance::from_ptr", S)), ["Service::from_ptr", "ServiceInstance::from_ptr", "Display"])
prop("C14", "TXT metadata follows the DNS-SD key/value rules",
     "Of the strings in a TXT record each non-empty key before the first equals sign is kept with the bytes behind that sign as its value, or as a flag when there is none; strings with an empty or undecodable key are ignored, and of several strings with the same key, compared without case, the first counts. Lookup ignores case and reports values unchanged.",
     ["inputs", "histories"], "every list of strings in a TXT record", "no test covers it", [S], M(("TxtRecords::from_txt", S), ("TxtRecords::get", S)), ["TxtRecords::get", "TxtRecords::iter", "Display"])
prop("C15", "The resolver returns exactly the addresses of the first useful response",
     "Resolving a name returns the addresses in the A and AAAA records of the answer section of the first received response to the query (the query's id, unless the resolver is a multicast one) that decodes completely and has any, in their order in the message, and nothing from earlier, rejected, mismatched or truncated datagrams nor from earlier lookups. It keeps waiting over datagrams that bring nothing and ends with the socket's error when a receive times out, which takes half a second unless set otherwise.",
     ["inputs", "histories", "fault_sequences"], "every sequence of received datagrams and socket errors", "no test uses the resolver's socket loop", [RES], M(("receive loop", RES + ":resolve_domain"), ("answer decoding", RES + ":decode_answer")), ["SyncResolver::resolve_domain"])
prop("C16", "The resolver asks every configured server, and only a fitting set",
     "Resolving sends the same query exactly once to every configured server and no other, from a socket of the servers' address family. Adding a server of another family, or any to a multicast resolver, is refused by a panic and everything else accepted.",
     ["configurations", "inputs"], "every list of servers, every name", "no test looks at what is sent", [RES], M(("server list", RES + ":add_server"), ("sending", RES + ":resolve_domain")), ["sendto calls", "SyncResolver::add_server"])
prop("C17", "Service browsing reports each discovered item once and obeys its callback",
     "Browsing calls back once for each distinct instance or service type named by pointer records of the responses received in time, in order of arrival, and not at all for other records, queries or undecodable parts. It stops at once when told to, ends after the discovery timeout (1 s unless set otherwise) or with the socket's error, and repeats its query after each receive timeout (300 ms unless set otherwise).",
     ["inputs", "histories", "schedules", "fault_sequences"], "every sequence of datagrams, receive timeouts, socket errors and clock readings", "no test covers it", [DIS], M(("discovery loop", DIS + ":send_query"), ("duplicates", DIS + ":discover_instances")), ["callbacks", "sendto calls", "return value"])
prop("C18", "Instance details come from the instance's SRV and the TXT before it",
     "Loading the details of an instance asks for its SRV and TXT records and returns host and port of the first SRV record that arrives, together with the metadata of the last TXT record received before it; without any SRV record in time the result is a timeout error.",
     ["inputs", "histories", "fault_sequences"], "every sequence of responses and socket errors", "no test covers it", [DIS, S], M(("details", DIS + ":load_instance_details")), ["SyncDiscoverer::load_instance_details"])
prop("C19", "The async resolver and discoverer behave like the synchronous ones",
     "For the same datagrams, timeouts and errors the async resolver and discoverer send the same queries to the same servers, return the same addresses, invoke the same callbacks and end in the same way as their synchronous counterparts, however the futures are polled.",
     ["inputs", "histories", "schedules", "fault_sequences"], "every interleaving of datagrams, timer expiries and polls", "the async crate has no tests", [AR, AD, AA], M(("async resolver", AR), ("async discoverer", AD)), ["AsyncResolver", "AsyncDiscoverer"])
prop("C20", "The traffic tap survives everything it hears",
     "The tap shares port 5353 with other programs, joins the group 224.0.0.251, and handles every received datagram, well-formed or not and whatever its length, without panicking and goes on listening until its socket fails; every question and record of a well-formed message is logged.",
     ["inputs", "histories", "fault_sequences"], "every sequence of datagrams", "no test covers it", [TAP, D], M(("loop", TAP + ":listen"), ("dump", D + ":MessageDecoder::format")), ["log output", "SyncTap::listen"])
prop("C21", "The advertiser's server loop answers each sender and outlives bad input",
     "The listening advertiser, sync or async, shares port 5353 with other programs, joins the group 224.0.0.251, and sends each response, unchanged and once, to the address the query came from, sends nothing for a datagram that gets no answer, goes on after malformed datagrams, and ends exactly when its socket fails.",
     ["inputs", "histories", "fault_sequences"], "every sequence of datagrams, senders and socket errors", "no test covers it", [ADV, AA], M(("sync loop", ADV + ":listen_blocking"), ("async loop", AA + ":listen")), ["recvfrom and sendto calls"])
prop("C22", "Queries are sent in exactly the promised form",
     "A lookup query carries the id 12345, requests recursion and asks for A and AAAA of the given name in class IN; a discovery query carries the id 12345, does not request recursion, and asks for exactly the given types of the given name, whatever the name is.",
     ["inputs"], "every name and list of types", "no test looks at a query's bytes", [RES, DIS], M(("encode_query", RES), ("encode_query", DIS)), ["resolver::encode_query", "discovery::encode_query"])

prop("C23", "Everything that was decoded shows as what it is",
     "The text of a question shows exactly its name, class and type, and that of a record exactly its name, TTL, class, type and data, each value in full and in its usual notation and in this order; data of unsupported types is shown byte by byte in hexadecimal and malformed data as its error. No control characters of a message get into these texts, and each error has a text of its own and turns into an I/O error of the corresponding kind (a lack of space into OutOfMemory). Different types and different classes, known or not, look different. A text that does not fit the destination it is written to is reported as an error and never cut short silently.",
     ["inputs"], "every decoded question and record, every error", "tests show one recorded message", [D, R, N, "src/error.rs"], M(("texts of records", R + ":Display"), ("texts of questions and records", D + ":Display"), ("errors", "src/error.rs")), ["Display for decoder::Question and decoder::ResourceRecord", "From<Error> for io::Error"])

prop("C24", "Sockets that cannot be set up are reported and none is left behind",
     "Making a resolver, discoverer, advertiser or tap, sync or async, and setting its timeouts fails with the operating system's error whenever a step of setting its socket up fails, and leaves no socket open; a timeout that is refused leaves the one before in force. Resolvers and discoverers leave the choice of their port to the system, so that any number of them can run at once, and every socket is closed with what it belongs to.",
     ["fault_sequences", "configurations"], "every failing step and every error", "no test makes a step fail", [RES, DIS, ADV, TAP, AR, AD, AA], M(("sockets of resolvers", RES + ":SyncResolver::new"), ("sockets of discoverers", DIS + ":SyncDiscoverer::new"), ("sockets of listeners", ADV + ":create_socket")), ["socket, setsockopt, bind and close calls"])
