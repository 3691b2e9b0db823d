#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept here because JSON lines are unpleasant to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- headers
p("H01", "Header names and values are always ASCII text",
  "Every header name and header value that safe code can obtain consists of ASCII bytes only, whichever constructor, parser, typed-header serializer or foreign-type conversion produced it. Non-ASCII input is refused at the point where the name or value would be created.",
  ["inputs", "programs"], "every string or byte sequence given to any public constructor, parser, conversion or typed header, and every sequence of typed-header setters before serialization",
  "Each typed header has its own route to an unchecked constructor and the tests feed each of them one or two ASCII strings; a non-ASCII byte must be tried at every route and every field.",
  ["src/headers/header_value.rs", "src/headers/header_name.rs", "src/hyperium_http.rs", "src/auth/authorization.rs", "src/proxies/forwarded.rs"],
  [("checked value constructors", "src/headers/header_value.rs HeaderValue::from_bytes, from_str"), ("checked name constructors", "src/headers/header_name.rs HeaderName::from_bytes, from_str"), ("unchecked constructors with a safety argument per caller", "every header_value() in src/*/")],
  [("inner", "text of a header value", "src/headers/header_value.rs")], ["HeaderValue::as_str", "HeaderName::as_str"])
p("H02", "Header names are lower case, so lookup ignores letter case",
  "Every header name, whether built from text, from bytes or as one of the library's own constants, is stored in lower case. Hence setting a header under any spelling and reading or removing it under any other spelling refer to the same entry, and this includes headers the library sets itself.",
  ["inputs", "programs"], "every header name that can be built and every pair of spellings used to write and to read it",
  "Tests try a handful of spellings for one or two names; each constructor, conversion and built-in constant is a separate place that must normalise.",
  ["src/headers/header_name.rs", "src/headers/constants.rs", "src/security/mod.rs", "src/headers/headers.rs"],
  [("lower-casing constructors", "src/headers/header_name.rs"), ("lower-case constants", "src/headers/constants.rs"), ("lookup by name value", "src/headers/headers.rs get/get_mut/remove/insert/append")])
p("H03", "A failed header insertion leaves the header map unchanged",
  "Inserting or appending a header either succeeds or returns an error and leaves every existing entry exactly as it was. An insertion that succeeds discards the old values of that name and hands them back; an append that succeeds keeps them and puts the new ones after them.",
  ["inputs", "histories"], "every sequence of insert/append/remove operations with valid and invalid values on headers, requests, responses and trailers",
  "Tests insert valid values; the state after an operation fails part-way is not observed anywhere.",
  ["src/headers/headers.rs", "src/headers/header_values.rs"],
  [("convert before mutate", "src/headers/headers.rs Headers::insert, Headers::append")])
p("H04", "A stored header entry always has at least one value",
  "No public operation creates a header entry or value list with no values in it: every list of header values holds at least one value, so reading its first or last value cannot fail.",
  ["inputs", "histories"], "every way of building a value list, including from empty slices, vectors and iterators",
  "Tests never build an empty list; the readers that rely on this (every single-valued typed header) are spread over the whole crate.",
  ["src/headers/header_values.rs", "src/headers/headers.rs", "src/headers/to_header_values.rs"],
  [("value list constructors", "src/headers/header_values.rs")])
p("H05", "A typed header is written to and read from one and the same header name",
  "For every typed header, the name it reports and the name under which applying it stores it are the name from which it is read back, and that name is the one the header is documented under. No typed header reads or writes any other header.",
  ["programs", "inputs"], "every typed header type, every value of it and every message it is applied to",
  "Round-trip tests exist for some types and, for those, go through a single path (apply then read); the reported name and the stored name are separate code.",
  ["src/auth", "src/cache", "src/conditional", "src/content", "src/other", "src/proxies", "src/security", "src/server", "src/trace", "src/transfer", "src/headers/header.rs"],
  [("header_name() and from_headers()", "every typed header"), ("apply_header()", "src/headers/header.rs")])
p("H06", "List headers use every field line; single-valued headers use only the last",
  "A header whose value is a comma-separated list is read from all field lines of that name, in order, splitting each on commas. A header with a single value is read from the last field line only.",
  ["inputs"], "every number and order of repeated field lines for every typed header",
  "Tests put one field line in the map for nearly every header type, so first, last and all coincide.",
  ["src/conditional", "src/content", "src/cache", "src/transfer", "src/server", "src/security/timing_allow_origin.rs", "src/trace", "src/auth", "src/other"],
  [("loop over all values", "list headers' from_headers"), ("last value", "single-valued headers' from_headers")])
p("H07", "Absence of a header is reported as absence and nothing else is",
  "Reading a typed header from a message yields \"no header\" exactly when the message has no field of that name. A field that is present yields a parsed header or an error, never a silent absence, and a missing field is never an error.",
  ["inputs"], "every typed header and every set of fields, present, malformed or absent",
  "Tests cover one malformed value per type at most; a parse failure swallowed as absence (or absence turned into an error) only shows for the inputs that take that branch.",
  ["src/auth", "src/cache", "src/conditional", "src/content", "src/other", "src/proxies", "src/security", "src/server", "src/trace", "src/transfer"],
  [("early return on a missing field", "from_headers of each typed header")])
p("H08", "Serializing a typed header is deterministic",
  "The text produced for a typed header is a function of the header's contents alone: it does not depend on hash-map iteration order, the clock, randomness, the environment or on how often it has been serialized before.",
  ["histories", "inputs"], "every typed header value and every number of serializations, in every process",
  "Hash-order and clock dependence do not show in a test that compares one output, or only show in some runs.",
  ["src/security/csp.rs", "src/trace/server_timing", "src/cache", "src/proxies/forwarded.rs", "src/conditional"],
  [("ordered containers and pure formatting", "header_value() of each typed header")])
p("H09", "Every directive or parameter name a header emits is one its parser accepts",
  "For each header that can be both written and read, every directive, parameter or scheme keyword it can emit is recognised, under the letter case it is emitted in, by the code that reads the same header, and read back as the same thing.",
  ["inputs", "programs"], "every directive and parameter of every typed header that is both emitted and parsed",
  "Round-trip tests pick one directive of each header; spelling mismatches sit in the ones not picked.",
  ["src/cache/cache_control/cache_directive.rs", "src/security/strict_transport_security.rs", "src/cache/clear_site_data/directive.rs", "src/trace/server_timing", "src/proxies/forwarded.rs", "src/auth"],
  [("emitting format code and the parser's keyword match", "same files")])
p("H10", "Text placed between quotes in a header cannot break out of the quotes",
  "Whenever a typed header writes caller-supplied or peer-supplied text inside double quotes, that text has been escaped or has been checked not to contain a quote. The reader of the field therefore sees exactly one quoted string.",
  ["inputs"], "every text value accepted by every typed header that emits quoted strings",
  "Tests use plain alphanumeric text for quoted values.",
  ["src/auth/www_authenticate.rs", "src/conditional/etag.rs", "src/proxies/forwarded.rs", "src/trace/server_timing/metric.rs", "src/mime/mod.rs"],
  [("quoting/escaping of values", "Forwarded format_value, Mime Display, WwwAuthenticate::header_value, ETag, Metric Into<HeaderValue>")])
# ---------------------------------------------------------------- parsing
p("P01", "Parsing untrusted header text never panics",
  "Reading any typed header from any set of header fields, and parsing any method, version, media type, entity tag, directive or other header token from any text, returns a value or an error; it never panics. Fields may repeat, be empty, be truncated anywhere or hold any permitted characters.",
  ["inputs"], "every string and every header map given to any public parsing function",
  "A parser panics only on specific malformed inputs (a truncation at a given offset, a number out of range); tests sample a few well-formed ones per header.",
  ["src/auth", "src/cache", "src/conditional", "src/content", "src/other", "src/proxies", "src/security", "src/server", "src/trace", "src/transfer", "src/mime", "src/parse_utils.rs", "src/utils"],
  [("fallible parsing with ensure!/?/ok_or", "every from_headers, FromStr and parse helper")])
p("P02", "A malformed header is reported as the client's error (400)",
  "Whenever reading a typed header fails because of the contents of the header field, the error's status is 400 Bad Request, never a 5xx, so that a server which forwards the status does not blame itself for a bad request.",
  ["inputs"], "every malformed field content for every typed header, through every internal error path",
  "Tests assert the status for one malformed value of some of the headers; each error path carries its own status and the default is 500.",
  ["src/auth", "src/cache", "src/conditional", "src/content", "src/other", "src/proxies", "src/security", "src/server", "src/trace", "src/transfer", "src/utils", "src/error.rs", "src/macros.rs"],
  [("explicit 400 on parse errors", "format_err_status!/Error::from_str/StatusCode::BadRequest uses in from_headers and parsers")])
# ---------------------------------------------------------------- tables
p("T01", "Request methods and their names correspond one to one",
  "Every request method has its own name, and parsing the name of a method yields that very method; no two methods share a name and no other text parses as one, letter case aside. Exactly the methods registered as safe are reported as safe.",
  ["inputs"], "all 39 methods and every text",
  "Tests parse or print a few of the 39 methods; two separate 39-row tables have to agree.",
  ["src/method.rs"], [("parsing table", "src/method.rs FromStr"), ("printing table", "src/method.rs AsRef<str>"), ("is_safe", "src/method.rs")])
p("T02", "Status codes, their numbers, reasons and classes agree",
  "Converting a status to its number and back yields the same status; a number is accepted only if it is exactly the number of a known status, whatever integer width or serialization format it arrives in. Each status has its own reason phrase, and belongs to exactly the one class its hundreds digit says.",
  ["inputs"], "every status, every 16-bit number and every integer of any width a deserializer can deliver",
  "Tests convert a handful of codes; more than 60 rows, two directions and a wider integer type on the serialization side have to agree.",
  ["src/status_code.rs"], [("number table", "src/status_code.rs TryFrom<u16>, repr"), ("canonical_reason", "src/status_code.rs"), ("class predicates", "src/status_code.rs is_*"), ("serde visitor", "src/status_code.rs")])
p("T03", "Keyword types print and parse through the same table",
  "For every enumeration with a textual form (HTTP version, content and transfer codings, authentication scheme, cache and site-data directives, content-security source, frame and referrer policies), each member has its own text, every way of printing it gives that text, and where it can be parsed from text that text parses to that member.",
  ["inputs"], "every member of every textual enumeration, in both directions",
  "Tests pick one or two members of each enumeration; every table is written out at least twice.",
  ["src/version.rs", "src/content/encoding.rs", "src/transfer/encoding.rs", "src/auth/authentication_scheme.rs", "src/cache/cache_control/cache_directive.rs", "src/cache/clear_site_data/directive.rs", "src/security/csp.rs", "src/hyperium_http.rs"],
  [("paired match tables", "Display/AsRef/FromStr/From impls of those files")])
p("T04", "Month and weekday names in dates mean the same in every format",
  "All three date formats and the date printer agree on which month each of the twelve month names stands for and which weekday each weekday name stands for, and a name that is none of them is refused.",
  ["inputs"], "all month and weekday names in the three readable formats and the printed one",
  "The tests use a few fixed dates, so most of the 12 month and 7 weekday rows of each of the tables are never exercised.",
  ["src/utils/date.rs"], [("name tables", "src/utils/date.rs parse_imf_fixdate, parse_rfc850_date, parse_asctime, Display")])
p("T05", "Deserializing a message part accepts only what parsing accepts",
  "Deserializing a method, version or status goes through the same acceptance test as parsing its text or converting its number: whatever those refuse is refused, whatever they accept yields the same member, and serializing writes the text or number that deserializing takes.",
  ["inputs", "configurations"], "every value a serialization format can deliver for those types",
  "Tests round-trip a couple of members through one format; the visitor code is a separate acceptance path.",
  ["src/method.rs", "src/version.rs", "src/status_code.rs"], [("serde visitors", "src/method.rs, src/version.rs, src/status_code.rs")])
# ---------------------------------------------------------------- body
p("M05", "Host and remote address come from the first source that has one",
  "The host of a request is the host named by one of the semicolon-separated pairs of its Forwarded field, else the first entry of its first X-Forwarded-Host line, else its Host field, else the host of its target; its remote address is the `for` among those pairs, else the first entry of its first X-Forwarded-For line, else the peer address. A later source never overrides an earlier one, an absent one is passed over, and there is no answer only when no source has one. Setting the query of a request changes its target's query and nothing else, and a query that cannot be written changes nothing.",
  ["inputs"], "every combination of the five header fields, target and peer address",
  "Tests set one or two of the sources at a time.",
  ["src/request.rs"], [("host, remote", "src/request.rs Request::host, Request::remote"), ("set_query", "src/request.rs Request::set_query")])
p("M06", "Messages, trailers and upgraded connections pass operations on",
  "A header operation of a request, a response or a set of trailers does to its fields what the operation of that name does to a set of header fields, with the caller's name and values, and answers what that answers. The declared length and emptiness of a message are its body's. Reading a message reads its body, and each read, write, flush and close of an upgraded connection is that same operation, once, on the stream inside it, with the caller's buffer and the stream's own answer.",
  ["inputs", "histories"], "every name, value, buffer and state of the wrapped fields, body or stream",
  "Tests call most of these operations on one field or one short body; an operation that is swapped for its neighbour or passes over some names or answers looks right there.",
  ["src/request.rs", "src/response.rs", "src/trailers.rs", "src/upgrade/connection.rs"],
  [("header operations", "src/request.rs, src/response.rs, src/trailers.rs"), ("reading", "src/request.rs, src/response.rs AsyncRead, AsyncBufRead"), ("upgraded connections", "src/upgrade/connection.rs AsyncRead, AsyncWrite")])
p("B01", "A body never yields more than its declared length",
  "When a body has a declared length, the total number of bytes obtained from it, over any mixture of read calls and buffer sizes and whether through plain or buffered reading, never exceeds that length. Every byte delivered counts against it, and only bytes delivered do.",
  ["inputs", "histories"], "every declared length, source size, buffer size and sequence of read calls",
  "Tests read bodies whose source ends at or just past the declared length, in one call; accounting errors show only over several partial reads or through the buffered interface.",
  ["src/body.rs"], [("length limit and accounting", "src/body.rs AsyncRead::poll_read, AsyncBufRead")],
  [("length", "declared length", "src/body.rs Body"), ("bytes_read", "bytes delivered so far", "src/body.rs Body")])
p("B02", "A body made from data declares that data's size and media type",
  "A body made from bytes, text, JSON or a form declares exactly the size of the data it holds, and the media type documented for that constructor; a body made from a file declares the file's size; a body made from a reader declares the length it was given and no other. Nothing has been read from a new body.",
  ["inputs"], "every data value and every constructor",
  "Tests look at length and type for single constructors; a size taken from another value of the same size, or in characters rather than bytes, passes them.",
  ["src/body.rs", "src/mime/constants.rs"], [("constructors", "src/body.rs from_*, empty")])
p("B03", "Replacing the body replaces it, and only it, and returns the old one",
  "Setting, replacing, swapping or taking the body of a request or response installs exactly the given body (an empty one when taking) and hands back exactly the previous one, unread and unchanged. A message's declared content type is set from the new body when the message has none, and an existing one is never overwritten.",
  ["inputs", "histories"], "every sequence of body operations on requests and responses with and without a content type",
  "Tests use one operation at a time on one of the two message types; the two implementations are separate copies.",
  ["src/request.rs", "src/response.rs"], [("body operations", "src/request.rs, src/response.rs set_body/replace_body/swap_body/take_body/copy_content_type_from_body")])
p("B04", "Joining two bodies keeps both, in order, and adds up what is known",
  "A body joined from two yields the unread rest of the first and then the unread rest of the second. Its length is declared only when both were, and is then the sum of what was left to read of each.",
  ["inputs", "histories"], "every pair of bodies, with and without declared lengths, read to any point before joining",
  "Tests join short literal bodies at the start; partially read and unsized ones are combinations they sample thinly.",
  ["src/body.rs"], [("chain", "src/body.rs Body::chain")])
# ---------------------------------------------------------------- messages
p("M01", "What is set on a message is what is read from it",
  "Each property of a request or response (method, target, version, status, peer and local address, content type, host, local state) read after being set gives the value last set, and setting one never changes another.",
  ["histories"], "every sequence of setters and getters on requests and responses",
  "Tests set and read a few properties separately; crossing two of the same type (the two addresses) or missing one of two copies of the code is invisible to them.",
  ["src/request.rs", "src/response.rs", "src/extensions.rs", "src/headers/headers.rs"], [("accessors", "src/request.rs, src/response.rs")])
p("M02", "Cloning a message keeps its head and drops its body and local state",
  "A cloned request or response has the same method, target, status, version, headers and addresses as the original, an empty body and no local state; the original is unaffected.",
  ["inputs"], "every request and response and every state of them",
  "Tests clone a message and look at few of its properties; each property is copied by its own line in two places.",
  ["src/request.rs", "src/response.rs", "src/trailers.rs"], [("Clone impls", "src/request.rs, src/response.rs")])
p("M03", "Trailers and upgrades are sent and received at most once",
  "For any message the sending end and the receiving end of its trailers, and of its connection upgrade, can each be obtained at most once, and a sending end can deliver at most one item: sending uses it up, and it cannot be duplicated. Obtaining a sending end marks the message as having trailers (or an upgrade); creating or cloning a message does not.",
  ["histories", "programs"], "every program using these channels and every order of calls",
  "Tests send once and receive once; that no safe program can do more is a statement about all programs.",
  ["src/trailers.rs", "src/upgrade", "src/request.rs", "src/response.rs"], [("consuming send", "src/trailers.rs Sender::send, src/upgrade/sender.rs"), ("take() of the channel end", "src/request.rs, src/response.rs")])
p("M04", "Requests and responses behave alike where they offer the same operation",
  "Every operation that both requests and responses offer (header access, body access and conversion, length, content type, trailers, version and addresses, iteration, reading) has the same effect on the corresponding part of the message in both.",
  ["programs", "inputs"], "every operation offered by both message types",
  "The two implementations are copies; tests exercise some operations on one and some on the other.",
  ["src/request.rs", "src/response.rs"], [("delegation to headers and body", "src/request.rs, src/response.rs")])
# ---------------------------------------------------------------- errors, extensions, iterators
p("E01", "Attaching a status touches failures only",
  "Attaching a status to a result or option leaves a success value exactly as it was and turns a failure into an error with exactly that status and the original failure as its cause. A status computed on demand is computed only for failures, once.",
  ["inputs"], "every result and option, successful or not, with every status",
  "Tests attach statuses to failures and look at the status; laziness and the success path are not observed.",
  ["src/status.rs", "src/error.rs"], [("Status trait impls", "src/status.rs")])
p("E02", "An error has the status it was given, and 500 only if none was given",
  "An error built with a status reports that status until another is set; an error built without one (from any other error type or from the plain macros) reports 500 Internal Server Error. Adding context, downcasting or converting to a response never changes it.",
  ["inputs", "histories"], "every way of building an error and every status",
  "Tests check one or two macros and constructors.",
  ["src/error.rs", "src/macros.rs"], [("constructors", "src/error.rs"), ("macros", "src/macros.rs")])
p("X01", "Local state is stored, found and removed under its own type",
  "In a message's local state a value is stored, found, replaced and removed under exactly its own type: an operation for one type never returns, replaces or removes a value of another, and a stored value is always returned as the type it was stored as.",
  ["programs", "histories"], "every set of types and every sequence of operations",
  "Tests use one or two types; the guarantee is over all types a program may use.",
  ["src/extensions.rs"], [("TypeId keyed map and downcasts", "src/extensions.rs")])
p("I01", "Iterating over headers visits every stored entry and reports sizes honestly",
  "Iterating over the names, values or entries of headers, trailers or a typed list header yields every stored item exactly once, and the reported size bounds always enclose the number of items still to come.",
  ["inputs", "histories"], "every header collection and every point of the iteration",
  "Tests iterate over collections with one value per name, for which counts of names and of values coincide.",
  ["src/headers/iter.rs", "src/headers/iter_mut.rs", "src/headers/into_iter.rs", "src/headers/values.rs", "src/headers/names.rs", "src/conditional", "src/content", "src/transfer", "src/server", "src/cache", "src/trace"],
  [("delegating next/size_hint", "iterator impls of those files")])
p("N01", "Content negotiation picks only from what the server offers",
  "Negotiating a media type, content coding or transfer coding returns one of the server's offered values, never one only the client named, and fails with 406 Not Acceptable if nothing matches; any wildcard match also returns an offered value.",
  ["inputs"], "every client preference list and every list of offered values",
  "Tests try a few preference lists in which the preferred value is offered.",
  ["src/content/accept.rs", "src/content/accept_encoding.rs", "src/transfer/te.rs"], [("negotiate", "those files")])
p("N02", "A preference weight is always between 0 and 1",
  "Every preference weight held by an accepted media type, content coding or transfer coding lies between 0 and 1 inclusive, however the value was built or parsed; anything else, including not-a-number, is refused.",
  ["inputs"], "every weight given in code or in header text",
  "Tests use ordinary weights; NaN, negative and overflowing ones go through different constructors.",
  ["src/content/media_type_proposal.rs", "src/content/encoding_proposal.rs", "src/transfer/encoding_proposal.rs", "src/utils/mod.rs"], [("range check in new()", "the three proposal types")])
p("N03", "A media type matches a range exactly when every part of the range agrees",
  "A media type is a subset of a media range if and only if the range's type is `*` or the same type, its subtype is `*` or the same subtype, and each parameter of the range, charset included, is a parameter of the media type with the same value. Extra parameters of the media type never matter.",
  ["inputs"], "every pair of media type and media range",
  "Tests try a handful of pairs without repeated or several parameters.",
  ["src/mime/mod.rs"], [("subset_eq", "src/mime/mod.rs Mime::subset_eq")])
p("N04", "The parts of a media type agree with each other",
  "Every media type the crate builds, predefined or parsed, has the essence that its type, a slash and its subtype make, and no two parameters of the same name (charset included). Looking up a parameter gives the value it has, charset=utf-8 included, or nothing if there is none; removing a parameter gives the same value, takes that parameter away so that looking it up again finds nothing, and leaves the other parameters and the type alone.",
  ["inputs", "histories"], "every media type text, every predefined media type, every sequence of lookups and removals",
  "Tests look at a few parsed texts; repeated parameters and the specially stored charset go wrong only together.",
  ["src/mime/mod.rs", "src/mime/parse.rs", "src/mime/constants.rs"], [("parse", "src/mime/parse.rs parse"), ("param, remove_param", "src/mime/mod.rs"), ("predefined types", "src/mime/constants.rs utf8_mime_const!, mime_const!")])
p("S01", "Security helpers set the headers they are documented to set",
  "Each security helper sets its documented header to its documented value (or removes the header it is documented to remove), findable under its documented name, and touches no other header; applying the defaults applies every one of the documented defaults.",
  ["inputs"], "every message and every helper",
  "Tests check one header per helper.",
  ["src/security/mod.rs"], [("helpers and default", "src/security/mod.rs")])
p("S02", "A Content-Security-Policy says what its builder was told",
  "Each directive method of the policy builder records the sources it was given under the directive the method is named after, keeping the sources recorded before; applying the policy sets the policy header (the report-only header exactly when report-only was asked for) to a value that contains every recorded directive with every source recorded for it, and applying or rendering twice gives the same value.",
  ["inputs","histories"], "every sequence of builder calls",
  "Tests build one or two policies.",
  ["src/security/csp.rs"], [("builder and apply", "src/security/csp.rs")])
p("C01", "Converting to and from the http crate loses nothing",
  "Converting a request, response or header map to or from the http crate's types keeps method, target, version, status, body and every value of every header, in order, and adds no header other than the body's content type where the message has none; a value the other side cannot represent is refused as an error rather than dropped, altered or causing a panic.",
  ["inputs"], "every request, response and header map, with repeated headers and unusual values",
  "Tests convert a message with one value per header name.",
  ["src/hyperium_http.rs"], [("conversions", "src/hyperium_http.rs")])
p("V01", "Messages, bodies and headers can be moved between threads",
  "Requests, responses, bodies, headers, trailers, errors and all typed headers can be sent to another thread; requests, responses, bodies and headers can also be shared between threads, and bodies and messages can be read without pinning.",
  ["programs"], "every program that moves or shares them",
  "It is a statement about all programs; it is silently lost when a private field changes.",
  ["src/request.rs", "src/response.rs", "src/body.rs", "src/headers", "src/trailers.rs", "src/error.rs", "src/extensions.rs"], [("Send/Sync bounds on boxed parts", "src/body.rs, src/extensions.rs")])
p("D01", "A date that is read has been checked for validity",
  "Every HTTP date obtained from text has gone through the calendar and clock validity check before it is used as a point in time, in each of the three formats; a date failing it is refused.",
  ["inputs"], "every date text in every format",
  "Tests parse valid dates and a few invalid ones.",
  ["src/utils/date.rs"], [("is_valid check", "src/utils/date.rs HttpDate FromStr / parse_http_date")])
p("D02", "A date text names the instant its fields say",
  "In each of the three formats every field of a date is read from its own place, a two-digit year means 1970-2069, and the instant obtained is the one the Gregorian calendar gives for those fields, leap years and centuries included.",
  ["inputs"], "every year 1970-9999, month, day, hour, minute and second, in the three formats",
  "Tests read a few dates; the month offsets, the leap-year rule and the two-digit years have hundreds of rows, each of which is wrong only for its own dates.",
  ["src/utils/date.rs"], [("field positions", "src/utils/date.rs parse_imf_fixdate, parse_rfc850_date, parse_asctime"), ("calendar formula", "src/utils/date.rs From<HttpDate> for SystemTime")])
p("D03", "A printed date carries the fields of its instant",
  "An instant printed as an HTTP date shows the weekday, day, month, year, hour, minute and second that the Gregorian calendar gives for it, each in its own place of the fixed-width format, and every typed header that holds an instant writes exactly that text.",
  ["inputs"], "every instant from 1970 to the end of 9998", "Tests print a few dates; 400-year, century and four-year cycles, month ends and weekdays go wrong only at particular days.",
  ["src/utils/date.rs", "src/other/date.rs", "src/cache/expires.rs"], [("civil date from seconds", "src/utils/date.rs From<SystemTime> for HttpDate"), ("printing", "src/utils/date.rs Display for HttpDate, fmt_http_date")])
p("Z01", "Dates survive being printed and read back",
  "Printing any second from 1970 to the end of 9998 as an HTTP date and reading it back yields the same second.",
  ["inputs"], "about 2.5e11 representable seconds, three formats", "Tests use a few dates; leap-year and century arithmetic is wrong only at particular days.",
  ["src/utils/date.rs"], [("civil-date arithmetic", "src/utils/date.rs")])
# ---------------------------------------------------------------- not decided
p("Z02", "Media types survive being printed and read back",
  "Printing any parsed media type and parsing the text again yields an equal media type.",
  ["inputs"], "every media type text", "Tests use a few media types.", ["src/mime/mod.rs", "src/mime/parse.rs"], [("parse and format", "src/mime/parse.rs")])
p("Z03", "Preferences are ordered by weight, later entries first among equals",
  "After sorting a preference list, and during negotiation, entries come in non-increasing order of weight, entries without a weight after all that have one, and among equals the one added later first. Sorting neither adds, drops nor changes entries.",
  ["inputs"], "every preference list", "Tests sort short lists.", ["src/utils/mod.rs", "src/content/accept.rs", "src/transfer/te.rs"], [("sort_by_weight", "src/utils/mod.rs")])
p("Z04", "Reading a body wakes up and makes progress whenever its source does",
  "A pending read on a body completes once its source has data, under every schedule and cancellation.",
  ["schedules", "fault_sequences"], "all schedules of the executor", "Tests run one schedule.", ["src/body.rs", "src/trailers.rs", "src/upgrade"], [("poll delegation", "src/body.rs")])
p("Z05", "Quoted strings survive being written and read back",
  "Any text a header can carry in quotes is read back unchanged.",
  ["inputs"], "every text", "Tests use plain text.", ["src/parse_utils.rs", "src/proxies/forwarded.rs"], [("quote and unquote", "src/parse_utils.rs parse_quoted_string, src/proxies/forwarded.rs format_value")])
p("Z06", "New trace contexts have fresh identifiers",
  "Two trace contexts created independently differ in their trace identifier, and a child differs from its parent in its own identifier.",
  ["histories"], "all creations in all processes", "Randomness cannot be sampled exhaustively.", ["src/trace/trace_context.rs"], [("random identifiers", "src/trace/trace_context.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
