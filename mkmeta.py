#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and the checks in props.py."""
import json
from props import PROPS

T = "13 unit tests with fixed messages"
M = lambda *a: [dict(name=n, where=w) for n, w in a]
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, note=""):
    a = dict(files=files, mechanism=mech, observe_at=observe, hook_needed=None)
    if state:
        a["state"] = state
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a), note))


D, E, R, PK, N = "src/packet/decoder.rs", "src/packet/encoder.rs", "src/packet/records.rs", "src/packet.rs", "src/name.rs"
S, ADV, DIS, RES, TAP = "src/service.rs", "src/service/advertising.rs", "src/service/discovery.rs", "src/resolver.rs", "src/tap.rs"
AR, AA, AD = "uwuhi-async/src/resolver.rs", "uwuhi-async/src/service/advertising.rs", "uwuhi-async/src/service/discovery.rs"

prop("C01", "Decoding arbitrary bytes never panics, hangs or loses its way",
     "For every byte string, decoding it as a message, walking or skipping any of its sections, converting records to their typed form, formatting whatever was decoded, and handing it to the response decoders of the resolver and the service discovery, ends after a bounded number of steps with a value or an error and never with a panic. Iterating a section yields at most as many items as the header announces.",
     ["inputs"], "every datagram, whatever its sender put in it",
     "tests decode a handful of recorded, well-formed messages; panics need particular lengths, pointer targets and cuts",
     [D, R, PK, N, RES, DIS], M(("bounds-checked reader", D + ":Reader"), ("pointer must go backwards", D + ":read_domain_name"), ("section counters", D + ":MessageDecoder::next_impl")),
     ["MessageDecoder", "resolver::decode_answer", "discovery::decode_answer", "Display/Debug of decoded values"])
prop("C02", "Domain name decompression is exact, safe and always ends",
     "Decoding a name at any place of any message yields exactly the labels RFC 1035 assigns to it, following compression pointers to earlier places only, and resumes right behind the name in its own place. A name that runs past the end of the message, uses a reserved label form, or points at or behind the run of labels it belongs to is rejected with the matching error.",
     ["inputs"], "every message and every arrangement of labels and compression pointers in it",
     "tests contain a few compressed names; chains of pointers, pointers into headers or record data, and cuts at each byte are not sampled",
     [D, N], M(("name reader", D + ":Reader::read_domain_name")), ["decoder::Question::qname", "decoder::ResourceRecord::name", "name-valued record fields"])
prop("C03", "Labels and names keep their limits, bytes and text forms",
     "A label can be built exactly from 1 to 63 octets and gives these octets back; text is split into labels at dots with an optional dot at the end, and empty or overlong labels are refused with the matching error. A name shows (in debug output as well) as its escaped labels each followed by a dot, text without escapes parses back to the same name, and names are equal exactly when their label sequences are.",
     ["inputs"], "every octet string as a label, every text as a name, every sequence of labels",
     "tests parse a few ASCII names", [N], M(("label constructor", N + ":Label::try_new_impl"), ("parser", N + ":FromStr for DomainName"), ("display", N + ":Display for DomainName")),
     ["Label::try_new", "DomainName::from_str", "Display", "PartialEq"])
prop("C04", "Typed record data is decoded exactly or rejected",
     "A record of one of the nine supported types decodes to exactly the field values its data holds, with names inside the data decompressed against the whole message, or is rejected when the data ends early; nothing outside the announced data is taken for a field. Records of other types are reported as unsupported and leave the rest of the message untouched.",
     ["inputs"], "every record type, every record data of every announced length",
     "the round trip test uses one value per type in an uncompressed stand-alone buffer", [R, D], M(("record decoders", R + ":RecordData::decode"), ("data window", D + ":ResourceRecord::as_enum")), ["ResourceRecord::as_enum", "record accessors"])
prop("C05", "Questions and records are framed exactly as the message lays them out",
     "Walking the sections of a message in order, record by record or skipping ahead, yields exactly the questions and records the header announces, each with the name, type, class, unicast-response or cache-flush bit, TTL and data found at its place. A message that ends before the announced items yields the items that are complete followed by an error, and no item twice or out of thin air.",
     ["inputs", "programs"], "every message, every combination of section counts, every way to walk the sections",
     "tests walk recorded messages from start to end and never mix skipping, iterating and single steps", [D], M(("section stepping", D + ":MessageDecoder::next_impl"), ("skipping", D + ":MessageDecoder::skip_to_section")), ["MessageDecoder::iter", "next", "answers/authority/additional"])
prop("C06", "The encoder writes the exact wire form of what it is given",
     "Encoding any header, questions and records of the supported types yields exactly the RFC 1035 byte sequence, with section counts and data lengths that match what was added and defaults of class IN, type ALL and TTL 0. Decoding these bytes gives equal values back. Text strings of more than 255 bytes, and a text record without any, cannot be made.",
     ["inputs", "programs"], "every sequence of questions and records, all field values, names and headers",
     "the round trip tests encode one record per type, with fixed small values", [E, R, PK], M(("writer", E + ":Writer"), ("length patching", E + ":write_rr"), ("counts", E + ":Drop for EncoderInner")), ["MessageEncoder"])
prop("C07", "Short buffers truncate cleanly and are reported",
     "Encoding into a buffer of any size writes nothing but a prefix of the full message apart from header and data length fields, sets the truncation bit and reports truncation exactly when something did not fit, and otherwise reports the exact length. A buffer without room for a header is refused at once and never corrupts memory or panics half way.",
     ["inputs", "configurations"], "every buffer length and every message",
     "tests always encode into a buffer that is large enough", [E], M(("truncating writes", E + ":Writer::write_slice"), ("TC bit", E + ":Drop for EncoderInner")), ["MessageEncoder::finish", "the bytes in the buffer"])
prop("C08", "Header fields are independent and sit at their RFC positions",
     "Each header accessor returns exactly its RFC 1035 field of the twelve header bytes, and each setter changes exactly that field and leaves every other bit alone, in whatever order they are applied.",
     ["inputs", "histories"], "every header value, every setter argument, every sequence of setters",
     "tests look at a handful of recorded headers", [PK], M(("flag accessors", PK + ":Header")), ["Header", "MessageDecoder::header"])
prop("C09", "Questions match exactly the record types and classes they ask for",
     "A question's class matches records of that class, or every record when it asks for any class; its type matches records of that type, every record when it asks for all, the mailbox types (MB, MG, MR) when it asks for those, and none for zone transfers and obsolete mail agents. Every code with an assigned name is shown by that name, and any other code keeps its number.",
     ["inputs"], "every pair of 16-bit codes", "tests use a few codes", [PK], M(("matching", PK + ":QType::matches, QClass::matches"), ("code tables", "src/packet/macros.rs")), ["QType::matches", "QClass::matches", "Display/Debug"])
exec(open(__file__.replace("mkmeta.py", "meta2.py")).read())


TECH = "symbolic execution of the crate's LLVM IR with a bit-vector SMT solver, against a reference model"


def main():
    with open("properties.jsonl", "w") as f:
        for p, _ in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, note in P:
        i = p["id"]
        if i in PROPS:
            b = PROPS[i]
            checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                               evidence_file="evidence/%s.json" % i, technique=TECH, level="model_checking",
                               level_note="Every path of the real code within the bounds is decided by the solver: %s. Outside: %s. Trusted: rustc's lowering to LLVM IR, the symx interpreter (sampled paths are re-run natively and compared on every run), Z3 (sampled queries re-decided by a second solver)."
                               % (b["bounds"], b.get("outside") or "nothing further")))
        else:
            na.append(dict(property=i, reason=note or "check under construction"))
    json.dump(dict(version=1, setup_cmd="python3 build.py", checks=checks, not_applicable=na,
                   notes="No hooks in /repo: harness crates use the public API only, and libc calls are modelled in the harness."),
              open("MANIFEST.json", "w"), indent=1)


main()
