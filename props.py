"""What is run for each property: harness entries with their time limits (seconds, quick tier; ×8 in
the thorough tier), and the bounds these entries put on the inputs."""


def e(s, t=30):
    return [(n, t) for n in s.split()]


PROPS = {
    "C02": dict(
        quick=e("names_hdr names_10 names_12 names_long names_total names_far names_chain", 40),
        thorough=e("names_14", 600),
        bounds="names_10/names_12: every body of 10/12 bytes behind a header with one question (every label "
               "length, every compression pointer, every cut); names_hdr: pointers into the 12 symbolic header "
               "bytes; names_long: labels of 1..63 bytes; names_far: pointers to offsets up to 16383; "
               "names_chain: chains of pointers; thorough: 14 bytes",
        outside="messages with more than 14 arbitrary bytes in one name; more than 24 labels",
    ),
    "C03": dict(
        quick=e("label_len label_bytes parse_short parse_utf8 parse_wide parse_long show_label show_long name_many show_name show_parse name_collect name_iters name_extend name_eq", 40),
        bounds="labels of 0..=300 bytes by length and of every content up to 63 bytes; every text of up to 5 "
               "bytes, every UTF-8 text of up to 4 bytes, long texts with labels around 63 bytes and of wide characters; every name of "
               "up to three short labels for display and equality, names of up to 127 labels and labels of up to 63 bytes with one arbitrary byte",
        outside="texts longer than that with arbitrary contents",
    ),
    "C04": dict(
        quick=e("rd_a rd_aaaa rd_cname rd_ns rd_ptr rd_txt rd_mx rd_srv rd_soa rd_soa_short rd_name_shapes rd_txt_long rd_type", 60),
        bounds="every RDATA of up to 10 bytes for each of the nine types (A/AAAA: lengths 0..=20), every type "
               "code, TXT strings of up to 255 bytes, SOA with two names in several shapes and cut anywhere",
        outside="RDATA with more than 10 arbitrary bytes in names",
    ),
    "C05": dict(
        quick=e("frame_next frame_iter frame_skip frame_mix frame_four frame_skip_four frame_names frame_many frame_huge frame_unicast frame_adapters", 90),
        bounds="messages with up to 4 sections, arbitrary 16-bit counts, up to 16 arbitrary bytes behind the header "
               "(concrete and symbolic owner names, arbitrary type/class/TTL/RDLENGTH), cut anywhere; iteration, "
               "explicit next and section skipping; nth, last, count, size_hint, skip, take, collect and for_each of the iterators",
        outside="more than 5 records per message",
    ),
    "C06": dict(
        quick=e("enc_answer enc_authority enc_additional enc_sections enc_defaults enc_header enc_counts enc_huge enc_txt_limits", 60),
        bounds="names of up to two labels (lengths 1..63) of arbitrary bytes, all nine record types with arbitrary "
               "field values, arbitrary class and TTL, up to 300 records, data around and beyond 65535 bytes, messages of up to 130 KB, arbitrary 12-byte headers",
        outside="more than 65535 records or RDATA beyond 65535 bytes (panic, see DESIGN.md)",
    ),
    "C07": dict(
        quick=e("short_q short_qa short_rrr short_aa short_types short_header short_header_late short_long enc_header", 60),
        bounds="every buffer length from 0 to past the end of the message, for messages of up to four items with "
               "arbitrary contents; any header given once or twice at any point",
        outside="",
    ),
    "C08": dict(
        quick=e("hdr_get hdr_set hdr_seq hdr_len", 60),
        bounds="all 2^96 headers; every setter with every value; every sequence of 3 setters; every message shorter "
               "than a header",
        outside="",
    ),
    "C09": dict(
        quick=e("match_type match_class codes names_type names_qtype names_other", 60),
        bounds="all 2^32 pairs of question and record type, of question and record class; all 16-bit codes",
        outside="",
    ),
    "C10": dict(
        quick=e("adv_types adv_header adv_names adv_many adv_regs adv_lengths adv_metadata adv_both adv_layout adv_extra adv_counts adv_cut adv_logged adv_scale", 60),
        bounds="every log level; one question of any type and class for 15 names against a fixed set of 15 records; any header id and "
               "flags; asked names of arbitrary bytes in 9 shapes; labels of ten lengths up to 63; two and three questions; up to 33 metadata strings; registrations of "
               "arbitrary host, instance, service labels (up to 3 bytes), addresses, ports and metadata; compressed "
               "questions, extra records and trailing bytes; queries cut anywhere or with any larger question count; up to three records in each other section, any counts of these; up to "
               "17 questions to an advertiser with up to 300 records",
        outside="the order of several TXT strings",
    ),
    "C11": dict(
        quick=e("adv_any adv_history adv_trunc adv_trunc_at adv_cut adv_grow adv_long adv_flags", 60),
        thorough=e("adv_any_long", 600),
        bounds="any datagram of up to 18 bytes (thorough: 20) with arbitrary id, flags, question count and body; "
               "histories of three messages out of answered, unanswered, malformed and overlong ones; answers cut at "
               "every place of a record at the 1500 byte limit; registrations between queries; up to 260 earlier messages; "
               "metadata strings of seven lengths up to 1600",
        outside="longer arbitrary datagrams (their decoding is covered by C01), longer histories",
    ),
    "C13": dict(
        quick=e("svc_type svc_instance svc_new svc_order svc_order3 svc_hash svc_show svc_transport svc_details", 60),
        bounds="pointer names of 0 to 5 labels of arbitrary bytes in 10 to 11 shapes (labels of up to 63 bytes); "
               "instances with names of up to 2+3 arbitrary bytes for equality, order and display; SRV records with "
               "arbitrary numbers",
        outside="display and order of longer arbitrary names",
    ),
    "C14": dict(
        quick=e("txt_one txt_value txt_long txt_long_key txt_many txt_two txt_three txt_flag txt_show txt_advertised", 60),
        bounds="one string of up to 5 arbitrary bytes; values of up to 6 arbitrary bytes and up to 253 bytes; two and "
               "three strings with keys of one or two arbitrary ASCII bytes; flags added to these; metadata sent "
               "through the advertiser and the decoder",
        outside="more than three strings with arbitrary keys (up to 130 with fixed ones), keys of up to 255 bytes with more than one arbitrary byte, non-ASCII keys in more than one string",
    ),
    "C01": dict(
        quick=e("t_walk t_questions t_names t_record t_record_cut t_data t_data_late t_chain t_deep t_receivers t_received_records t_show_question t_show_codes t_show_data t_show_long t_show_values t_show_numbers t_show_header frame_huge", 120),
        thorough=e("t_walk_long t_questions_long", 900),
        bounds="every header with any four counts in front of up to 4 arbitrary bytes (thorough: 6), walked in six "
               "ways; questions of up to 9 arbitrary bytes (thorough: 11); record names of up to 6 arbitrary bytes; any "
               "record type, data length and up to 8 bytes of data for each type; chains of up to 200 pointers; "
               "the response decoders on any header and up to 5 bytes, and on any record; texts (Display and Debug) "
               "of every code, header and of values with up to 3 arbitrary bytes",
        outside="more than 11 arbitrary bytes at a time (C02, C04 and C05 go to 12, 10 and 16)",
    ),
    "C12": dict(
        quick=e("both_instances both_many both_types both_details both_hosts both_walk", 90),
        bounds="one or two instances with arbitrary instance, service and host labels of up to 3 bytes, either transport, "
               "any port and one metadata string of up to 3 bytes; any host label and address, IPv4 and IPv6; the real discoverer and resolver "
               "exchange datagrams with the real advertiser; up to 24 instances with fixed names",
        outside="more than two instances with arbitrary names; several metadata strings; lost or reordered datagrams (C15, C17, C18)",
    ),
    "C15": dict(
        quick=e("res_header res_records res_types res_cut res_any res_raw res_big res_sequence res_logged res_multicast res_again res_many res_timeout", 90),
        bounds="every log level; sequences of up to three datagrams (useful, empty, foreign id, query, cut, malformed), timeouts and "
               "errors; any header; up to three A/AAAA/other records with arbitrary data and lengths, in any section, cut "
               "anywhere; arbitrary bodies of several bytes; datagrams around 512 bytes; repeated lookups; the "
               "multicast resolvers; any receive timeout",
        outside="longer sequences; the sender's address, which the resolver does not look at",
    ),
    "C16": dict(
        quick=e("srv_v4 srv_many srv_v6 srv_multicast srv_add srv_text srv_again srv_send_fails", 60),
        bounds="up to four servers with any address and port, IPv4 and IPv6, up to 64 with fixed ones; any pair of addresses for add_server; "
               "texts of up to three bytes; repeated lookups; a failure of any send",
        outside="more than 64 servers",
    ),
    "C17": dict(
        quick=e("br_instances br_types br_repeat br_distinct br_alike br_header br_mixed br_type br_cut br_any br_big br_sequence br_logged br_clock br_stop br_stop_big br_long br_many br_send_fails br_again br_retransmit", 90),
        bounds="every log level; pointer names of up to six labels with arbitrary bytes; up to three records in a response and three "
               "responses; any header, record type and class, arbitrary bodies; datagrams cut anywhere and around 1500 "
               "bytes; sequences of three datagrams, timeouts and errors; any durations; stopping at any call; any "
               "failing send; several calls, any retransmit timeout",
        outside="datagrams that arrive after the discovery timeout, durations that equal it exactly, and whether one "
                "more query is sent right at the end are left open; longer sequences",
    ),
    "C18": dict(
        quick=e("det_srv det_order det_mixed det_header det_cut det_sequence det_logged det_many det_clock", 60),
        bounds="every log level; hosts of several shapes with arbitrary bytes, any port; up to three records (SRV, TXT, others) in any order "
               "and over several responses; any header; cuts anywhere; sequences of datagrams, timeouts and errors; any durations; up to 33 other records, responses or strings in front, hosts of up to 24 labels",
        outside="as for C17; TXT data beyond two strings (C14)",
    ),
    "C19": dict(
        quick=e("as_resolve as_resolve_any as_resolve_name as_resolve_servers as_logged as_resolve_one as_resolve_again as_resolve_cancel as_resolve_send as_add as_text as_discover as_discover_records as_discover_alike as_discover_for as_discover_clock as_discover_again as_discover_cancel as_discover_big as_discover_long as_resolve_many as_discover_send", 60),
        bounds="every log level; sync and async run on the same scripts of up to six events; calls that are given up after up to three polls and followed by another, with up to two idle polls before each event: any "
               "datagrams of the kinds in C15, C17 and C18, timeouts, errors, failing sends, several calls, server lists, "
               "timeouts and domains",
        outside="the reactor of async-io is a model: readiness and timers come from the script, and a datagram that "
                "arrives at the very moment a timer fires is not distinguished",
    ),
    "C20": dict(
        quick=e("tap_sections tap_many tap_long tap_question tap_class tap_header tap_record tap_types tap_ttl tap_any tap_bytes tap_cut tap_big tap_sequence tap_socket", 90),
        bounds="up to two items in each section; any header; questions and records with any codes, TTL byte, short names and short "
               "data; datagrams of up to 15 bytes with 5 arbitrary ones; messages cut anywhere; sizes around 1500; sequences of three datagrams, up to 65 before the one to be logged; up to 24 items in a section; log levels off, debug and trace",
        outside="longer arbitrary datagrams (C01); the wording of the log",
    ),
    "C21": dict(
        quick=e("sv_sequence sv_cancel sv_any sv_question sv_register sv_big sv_send sv_long sv_logged sv_socket", 90),
        bounds="every log level; both loops; sequences of three datagrams (answered, silent, malformed, empty) from any senders; any datagram "
               "of up to 18 bytes with 10 arbitrary ones; any question type, class and header; any registrations with labels of up to two "
               "bytes; datagrams and answers around 1500 bytes; a failure of any receive or send; listening given up after up to four polls and started again; up to 100 datagrams of each kind before one more",
        outside="arbitrary longer sequences; interrupted system calls",
    ),
    "C22": dict(
        quick=e("query_lookup query_lookup_long query_sent query_browse query_details query_discovery", 60),
        bounds="names of up to three labels of arbitrary bytes in five shapes, several shapes of names of 255 octets; lists of "
               "arbitrary question types; the queries actually sent by lookups and each discovery call",
        outside="names longer than 255 octets, which no message may carry",
    ),
    "C23": dict(
        quick=e("sh_question sh_record sh_a sh_aaaa sh_names sh_pointer sh_mx sh_srv sh_soa sh_txt sh_txt_any sh_txt_empty sh_txt_long sh_names_long sh_other sh_other_long sh_bad sh_codes sh_errors sh_v4_in_v6 sh_full", 60),
        bounds="names of up to three labels with one arbitrary byte; every IPv4 address; IPv6 addresses, TTLs and numbers with one "
               "arbitrary byte at any place in three surroundings; TXT strings of up to 4 arbitrary bytes; up to 4 arbitrary bytes of "
               "unsupported data; labels of 63, names of 127 labels, TXT strings of 255, 65 strings and unsupported data of 300 bytes with one arbitrary byte; malformed data of up to 2 arbitrary bytes for seven types; the errors any three bytes lead to",
        outside="numbers with several arbitrary bytes; `Debug` texts (only that they can be made, C01)",
    ),
    "C24": dict(
        quick=e("su_make su_timeout su_drop", 60),
        bounds="16 ways to make a resolver, discoverer, advertiser or tap; a failure of any one of the first six steps with any error number "
               "(1 to 133); one refused timeout; one call before a socket is dropped",
        outside="several failures at once; steps that async-io itself takes",
    ),
}
