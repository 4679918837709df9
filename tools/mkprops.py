#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = "email-parser/src/"
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[P + f for f in files],
                          mechanism=[dict(name=n, where=P + w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=P + w) for n, m, w in state]
    return d

props = [
prop("C01", "Parsing never reads outside its input or makes an invalid string",
 "For every byte string given to the parser, and every entity decoded from it, the library performs no undefined behaviour: it reads no byte outside the caller's buffer and no uninitialised or freed memory. Every string it returns is valid UTF-8 and every borrowed string or byte slice it returns lies entirely inside the caller's buffer (or is a constant of the library).",
 ["inputs", "configurations"], "all byte strings, in every feature configuration, at every buffer address and with any bytes around the buffer",
 "The library skips bounds and UTF-8 checks in about 25 unsafe blocks. Tests use a few dozen well-formed static literals whose neighbours in memory are readable, so an out-of-bounds read or an invalid string would go unnoticed.",
 ["parsing/combinators.rs", "string.rs", "parsing/quoted_string.rs", "parsing/message.rs", "parsing/mime/base64.rs", "parsing/mime/multipart.rs", "parsing/mime/percent_encoding.rs"],
 [("unchecked slicing and from_utf8_unchecked guarded by character predicates", "parsing/combinators.rs"),
  ("merging of adjacent slices", "string.rs"), ("in-place decoding with unchecked indexes", "parsing/mime/base64.rs")],
 ["Email::parse, parse_message, RawEntity::parse and decode_base64 under AddressSanitizer, Miri, guard pages and debug checks; pointer range and UTF-8 validity of every returned string"]),

prop("C02", "Every input gets an answer: no panic, abort, stack overflow or hang",
 "For every byte string, parsing a message or a decoded entity returns either a value or an error, in debug and release builds. It never panics, overflows an integer or the stack, aborts or loops forever, whatever the nesting depth, lengths, counts, numbers, character sets or truncation point found in the message.",
 ["inputs", "configurations"], "all byte strings including hostile nesting, huge counts and lengths, extreme numbers and every truncation point",
 "Tests parse a handful of friendly messages; panics need unusual depths (nested comments), counts (256 continuations), bytes (unassigned in a charset) or truncation points.",
 ["parsing/whitespaces.rs", "parsing/mime/percent_encoding.rs", "parsing/mime/base64.rs", "parsing/mime/quoted_printables.rs", "parsing/mime/multipart.rs", "parsing/time.rs", "parsing/mime/mod.rs"],
 [("iterative comment scanner", "parsing/whitespaces.rs"), ("checked arithmetic", "parsing/mime/mime_fields.rs"), ("error returns", "error.rs")],
 ["process exit status, panic hook, CPU-time and stack limits around Email::parse, parse_message, RawEntity::parse, decode_base64 and decode_qp"]),

prop("C03", "Parsing cost and memory grow linearly with the size of the message",
 "The number of instructions executed and the number of bytes allocated to parse a message, or to decode an entity, grow at most proportionally to the size of the message. This holds for every shape of input that respects the RFC limit on boundary length: many headers, many addresses, tokens, comments, parameters, parts or encoded words, long lines, long bodies, and unterminated or repeatedly failing constructs.",
 ["inputs"], "families of inputs scaled in every dimension (count, length, depth, failing attempts)",
 "Tests check results, not cost, and use inputs of at most a few kilobytes, where quadratic behaviour is invisible.",
 ["parsing/combinators.rs", "string.rs", "parsing/fields.rs", "parsing/common.rs", "parsing/mime/quoted_printables.rs", "parsing/mime/base64.rs", "parsing/mime/percent_encoding.rs", "parsing/mime/multipart.rs"],
 [("single pass parsers without memo", "parsing/combinators.rs"), ("linear output buffers", "parsing/mime/quoted_printables.rs")],
 ["edges of the control flow taken (compiler instrumentation), bytes allocated (counting allocator), and instructions executed (valgrind) at sizes n, 2n, 8n, 16n and 32n"]),

prop("C04", "Every header is reported exactly once, in order, under its own name",
 "Each header line of an accepted message appears exactly once in the result, in the order of the message, either as the structured field of its name or as an unrecognized field carrying its name verbatim and its text. A structured field with invalid content is reported as an unrecognized field and never disappears, and fields that may occur several times (comments, keywords, trace blocks, unrecognized fields) keep all their occurrences in order.",
 ["inputs"], "all sequences of recognised, unrecognised, repeated and malformed headers",
 "Tests check single headers; no test checks that a full message's header list is complete and ordered, for any mix of valid, invalid and unknown headers.",
 ["parsing/fields.rs", "email.rs", "parsing/combinators.rs"],
 [("ordered alternatives ending with the unknown header", "parsing/fields.rs"), ("field dispatch", "email.rs")],
 ["the list returned by parse_message; the fields and unknown_fields of Email"]),

prop("C05", "Required and unique headers are enforced, and errors name the header",
 "A message is accepted only if it has a valid From and a valid Date, at most one valid occurrence of each header that must be unique (Date, From, Sender, Reply-To, To, Cc, Bcc, Message-ID, In-Reply-To, References, Subject and the MIME headers), and an explicit Sender unless there is exactly one author, who is then the sender. Otherwise the error says which header is duplicated or missing. A message meeting these conditions whose syntax and transfer encoding are valid is accepted.",
 ["inputs", "configurations"], "all multisets of headers, valid or malformed, and all numbers of authors",
 "Tests try four combinations (missing or doubled From and Date); the other unique headers, the Sender rule and error names are untested.",
 ["email.rs", "error.rs"],
 [("duplicate and missing header checks, sender inference", "email.rs")],
 ["result or error variant and header name of Email::parse"]),

prop("C06", "Addresses, groups and display names are decoded faithfully",
 "For every RFC 5322 (non-obsolete) address list, each mailbox and group is returned in order with exactly the display-name words, local part and domain it denotes: quoted strings are unquoted, escapes resolved, comments and folding removed, and nothing else is lost, merged, reordered or altered. This applies to every address header and to all sizes of lists, groups (including empty ones), names, local parts, domains and domain literals.",
 ["inputs"], "all syntactically valid address lists under all permitted uses of quoting, comments and folding",
 "Tests parse about ten addresses with no comments, folding, escapes at boundaries, or empty groups inside lists.",
 ["parsing/address.rs", "parsing/common.rs", "parsing/quoted_string.rs", "parsing/whitespaces.rs", "parsing/character_sets.rs", "string.rs", "address.rs"],
 [("address grammar", "parsing/address.rs"), ("atoms and phrases", "parsing/common.rs"), ("quoted strings", "parsing/quoted_string.rs")],
 ["From, Sender, Reply-To, To, Cc, Bcc values of parse_message and Email::parse"]),

prop("C07", "Dates and times are decoded exactly and out-of-range values are refused",
 "Every valid RFC 5322 date-time yields exactly the day name (if any), day, month, year, hour, minute, second (0 when omitted) and signed zone it denotes, for all letter cases and folding. A date-time with a day outside 1-31, an unknown day or month name, a year before 1900 or shorter than 4 digits, an hour above 23, a minute above 59, a second above 60, or zone minutes above 59 is never returned as a date.",
 ["inputs"], "all values of every component, exhaustively per component and combined at random",
 "Tests cover a dozen dates; ranges, month and day tables, signs, leap seconds and case variants are not exhausted.",
 ["parsing/time.rs", "time.rs", "parsing/character_sets.rs"],
 [("component parsers with range checks", "parsing/time.rs")],
 ["Date values (and dates of Received and Content-Disposition) in the parsed result"]),

prop("C08", "Message identifiers are split exactly into their two parts",
 "Every valid Message-ID, In-Reply-To, References or Content-ID header yields the exact list of its identifiers in order, each as the text left of the at sign and the text right of it (without the brackets of a domain literal). Comments and folding around identifiers are ignored, and identifiers containing white space, comments, empty parts or illegal characters are not accepted.",
 ["inputs"], "all lists of valid identifiers with comments and folding around them, and their single-byte corruptions",
 "Tests parse five identifiers; lists with comments, folds, literals and the excluded characters are not covered.",
 ["parsing/address.rs", "parsing/fields.rs", "parsing/mime/mime_fields.rs"],
 [("message identifier grammar", "parsing/address.rs")],
 ["message_id, in_reply_to, references and entity id in the parsed result"]),

prop("C09", "Free-text headers are unfolded exactly; keywords keep words and order",
 "For Subject, Comments and unrecognized headers without encoded words, the value is exactly the text after the colon with each folding line break removed and trailing white space dropped, every other character kept. Keywords are the comma-separated phrases in order, each as its list of words.",
 ["inputs"], "all printable texts, white space patterns, and fold positions",
 "Tests use two folded sentences; interior runs of spaces and tabs, folds at any place, leading and trailing white space and long texts are not covered.",
 ["parsing/common.rs", "parsing/whitespaces.rs", "parsing/fields.rs", "string.rs"],
 [("unstructured text", "parsing/common.rs"), ("concatenation of text pieces", "string.rs")],
 ["subject, comments, keywords and unknown_fields of the parsed result"]),

prop("C10", "Letter case, comments, folding and header order do not change the meaning",
 "Changing the letter case of header names, of month and day names, of MIME types, encodings and parameter names, inserting comments (even nested or containing escapes) or folding where RFC 5322 allows them, or permuting distinct headers, never changes the structured values obtained from a message.",
 ["inputs"], "all valid messages and all sequences of meaning-preserving rewritings of them",
 "A relation between runs on rewritten messages; unit tests compare single runs to constants.",
 ["parsing/combinators.rs", "parsing/whitespaces.rs", "parsing/common.rs", "parsing/fields.rs", "parsing/mime/mime_fields.rs", "parsing/time.rs"],
 [("case-insensitive tags", "parsing/combinators.rs"), ("comments and folding", "parsing/whitespaces.rs")],
 ["parsed results of a message and of its rewritten variants"]),

prop("C11", "The body is the exact bytes after the first empty line",
 "The body of a message is exactly the bytes following the first empty line, unchanged, or is reported absent when there is no empty line; with MIME support and an identity encoding this holds for all bytes. Without MIME support the body is returned as text when it consists of 7-bit lines of at most 998 characters separated by CRLF, and the message is refused otherwise.",
 ["inputs", "configurations"], "all bodies (all bytes, lengths and line structures), in both configurations",
 "Tests use bodies of one or two short lines; limits (998 characters, bare CR or LF, NUL, 8-bit bytes, empty versus absent) are not covered.",
 ["parsing/message.rs", "email.rs", "parsing/mime/entity.rs"],
 [("header and body separation, line checks", "parsing/message.rs")],
 ["body of parse_message and of Email (or value of its entity)"]),

prop("C12", "Trace blocks group return path, received and resent fields faithfully",
 "Each trace block at the start of a message is returned in order with its return path (absent, empty, or the address), all its Received fields with their tokens classified as word, address or domain and their date, and all its resent fields in order with their values. Fields of one block are never attributed to another block, lost, or mixed with the ordinary headers.",
 ["inputs", "histories"], "all sequences of trace blocks with all kinds of tokens and resent fields",
 "Tests parse two short blocks and never check several blocks, token classification in sequences, or resent fields within blocks.",
 ["parsing/fields.rs", "email.rs"],
 [("trace and resent grammar", "parsing/fields.rs")],
 ["trace of Email and Trace fields of parse_message (through their public Debug form, the types being unnameable)"]),

prop("C13", "Transfer decoding restores exactly the bytes that were encoded",
 "Decoding base64 or quoted-printable content, in a message body, in a part or through the exported functions, returns exactly the bytes that any conforming encoder encoded: all byte values, lengths, line lengths, letter cases, soft line breaks and padding, ignoring characters outside the base64 alphabet and trailing white space of quoted-printable lines. Truncated base64 is an error, and damaged quoted-printable sequences only affect themselves.",
 ["inputs"], "all byte strings under all conforming encodings of them, and damaged encodings",
 "Tests decode about ten short texts; binary content, every residue of the length, soft breaks at all places and damaged data are not covered.",
 ["parsing/mime/base64.rs", "parsing/mime/quoted_printables.rs", "parsing/mime/entity.rs", "email.rs"],
 [("base64 in-place decoder", "parsing/mime/base64.rs"), ("quoted-printable decoder", "parsing/mime/quoted_printables.rs")],
 ["value of the message entity and of parts; decode_base64 and decode_qp"]),

prop("C14", "Encoded words are decoded where allowed and kept verbatim otherwise",
 "In Subject, Comments, descriptions, phrases and (when enabled) unrecognized headers, every valid RFC 2047 encoded word in a supported charset, in either encoding and with or without language, is replaced by its text, and white space between adjacent encoded words disappears while all other white space stays. Malformed, unsupported or undecodable encoded words are kept verbatim, and nothing is decoded inside quoted strings, addresses or in configurations without MIME support.",
 ["inputs", "configurations"], "all mixes of plain words, encoded words and near misses, charsets, encodings and white space",
 "Tests decode about fifteen well-formed encoded words; near misses, adjacency patterns, folds, quoted strings and undecodable words are not covered.",
 ["parsing/mime/encoded_headers.rs", "parsing/common.rs", "parsing/mime/base64.rs", "parsing/mime/quoted_printables.rs"],
 [("encoded word parser", "parsing/mime/encoded_headers.rs"), ("encoded words in texts and phrases", "parsing/common.rs")],
 ["subject, comments, description, display names, keywords and unknown_fields of the parsed result"]),

prop("C15", "Content type, parameters and disposition are decoded as written",
 "A valid Content-Type yields its type and subtype in lowercase and all its parameters (names in lowercase, values unquoted), with continued and percent-encoded parameters joined in index order and decoded. A valid Content-Disposition likewise yields its kind, filename, dates and other parameters; the MIME version, transfer encoding, identifier and description are decoded as written, and without Content-Type an entity is plain US-ASCII text.",
 ["inputs"], "all valid MIME headers: types, parameter counts and orders, continuations, encodings, quoting and comments",
 "Tests decode about fifteen headers; order and number of continuations, case, quoting, comments, similar names and date parameters are barely covered.",
 ["parsing/mime/mime_fields.rs", "parsing/mime/percent_encoding.rs", "mime.rs", "email.rs"],
 [("MIME header grammar", "parsing/mime/mime_fields.rs"), ("parameter continuation and decoding", "parsing/mime/percent_encoding.rs")],
 ["MIME fields of parse_message; entity of Email; parts"]),

prop("C16", "A multipart body splits into exactly its parts",
 "Decoding a multipart entity returns its parts in order, each with exactly its own headers and bytes: preamble and epilogue are excluded, and the line break before a delimiter belongs to the delimiter. Only a line made of two hyphens, the boundary, two more hyphens for the closing one, and trailing white space is a delimiter; text merely resembling it stays in the part, nested multiparts split recursively, and a body with a missing boundary parameter or closing delimiter is refused.",
 ["inputs"], "all trees of parts, boundaries, bodies containing near-delimiters, preambles and epilogues",
 "Tests parse one two-part message and print it; nesting, near-delimiters, empty parts and epilogues are not checked.",
 ["parsing/mime/multipart.rs", "parsing/mime/entity.rs", "mime.rs"],
 [("delimiter search", "parsing/mime/multipart.rs"), ("part header parser", "parsing/mime/entity.rs")],
 ["RawEntity::parse on the message entity and, recursively, on parts"]),

prop("C17", "Text entities are decoded according to their charset",
 "A text entity in any supported charset (UTF-8, US-ASCII, ISO-8859-1 to 16 except 12, ISO-6937, GB2312, in any letter case) decodes to exactly the characters its bytes denote in that charset. Invalid UTF-8 is an error, an unsupported or missing charset or a non-text type is reported as unknown without altering the data, and the same tables apply to encoded words and percent-encoded parameters.",
 ["inputs"], "every byte (or byte pair) of every supported charset, at every place where a charset is honoured",
 "Tests use UTF-8 and ASCII-only ISO-8859-1/2 samples; the other sixteen charsets are never decoded.",
 ["parsing/mime/entity.rs", "parsing/mime/encoded_headers.rs", "parsing/mime/percent_encoding.rs", "parsing/mime/mod.rs"],
 [("charset dispatch (three copies)", "parsing/mime/entity.rs")],
 ["RawEntity::parse, subject with encoded words, extended parameters"]),

prop("C18", "Disabling a header feature only turns that header into plain text",
 "Every combination of features builds. Enabling or disabling the support of a header changes only how that header is reported (structured, or unrecognized with its plain text) and never the other fields, the body or the acceptance of messages, apart from checks and inferences that rely on the disabled header itself.",
 ["configurations", "inputs"], "all combinations of features (sampled), on all messages",
 "The test suite is only run with all features and with the default ones; other combinations are never built.",
 ["email.rs", "parsing/fields.rs", "parsing/mime/entity.rs", "lib.rs", "prelude.rs"],
 [("conditional compilation of fields", "parsing/fields.rs"), ("conditional fields of Email", "email.rs")],
 ["parsed results of the same messages in separately built configurations"]),

prop("C19", "Text present verbatim in the message is borrowed, not copied",
 "Values that appear contiguously in the message and need no decoding (atoms, dot-atoms, plain quoted strings, unfolded texts, identifiers, tokens, header names, and bodies or parts with an identity encoding) are returned as references to the exact place in the caller's buffer where they occur. The memory allocated to parse a message does not depend on the length of such values.",
 ["inputs"], "all messages made of values needing no decoding, at all sizes",
 "Tests check borrowing for one quoted string and one concatenation.",
 ["string.rs", "parsing/common.rs", "parsing/quoted_string.rs", "parsing/address.rs", "parsing/message.rs", "parsing/mime/entity.rs"],
 [("merging adjacent slices into one reference", "string.rs")],
 ["borrowed or owned state and address of every returned string; bytes allocated for text"]),

prop("C20", "Text that violates the grammar is never given a structured meaning",
 "A header whose content does not conform to its RFC grammar (illegal characters, missing or extra delimiters, unbalanced quotes or comments, wrong order) is never reported as a structured field. A message with a line that is neither a header, a folded continuation nor the empty line ending the headers is refused, and line breaks are only CRLF.",
 ["inputs"], "the complete single-byte edit neighbourhood (all 256 bytes, all positions) of representative headers, and random edits",
 "Tests contain a dozen negative examples; acceptance of illegal characters or misplaced delimiters at other places is invisible.",
 ["parsing/character_sets.rs", "parsing/address.rs", "parsing/common.rs", "parsing/fields.rs", "parsing/time.rs", "parsing/mime/mime_fields.rs", "parsing/quoted_string.rs"],
 [("character classes", "parsing/character_sets.rs"), ("grammar combinators", "parsing/combinators.rs")],
 ["classification (structured, unrecognized, refused) of each header against an independent recogniser"]),

prop("C21", "Parsing is a pure function of the bytes",
 "The result depends only on the bytes of the message: not on the address or alignment of the buffer, the bytes around it, previous or concurrent calls, the thread, or the entry point (parsing directly or through conversion from bytes), and the input is never modified. Messages can be parsed and entities decoded concurrently and repeatedly with identical results.",
 ["inputs", "schedules", "histories"], "all messages, buffer placements, call histories and thread interleavings",
 "Tests parse once, in one place, from static memory.",
 ["email.rs", "string.rs", "parsing/message.rs", "mime.rs"],
 [("absence of global state", "lib.rs"), ("pointer comparison when merging slices", "string.rs")],
 ["results of repeated, relocated, interleaved and concurrent parses; ThreadSanitizer"]),

prop("C22", "MIME headers mean the same on a message and on a part",
 "Given the same MIME headers and content, the top-level entity of a message and a part of a multipart have the same type, subtype, parameters, identifier, description, disposition and decoded value, and decode to the same text or parts. Other headers of a part are kept in order with their names and texts.",
 ["inputs"], "all sets of MIME headers and contents, in all header orders",
 "Two separate code paths read MIME headers; tests never compare them.",
 ["parsing/mime/entity.rs", "email.rs", "parsing/fields.rs"],
 [("header loop of parts", "parsing/mime/entity.rs"), ("header dispatch of messages", "email.rs")],
 ["mime_entity of Email and parts obtained by RawEntity::parse"]),

prop("C23", "Owned copies of MIME values are lossless and independent of the input",
 "Converting a content type, transfer encoding, disposition or disposition kind to its owned form yields an equal value, including all parameters and dates, that stays valid and unchanged after the input buffer is overwritten and freed. Cloning any parsed MIME value yields an equal value.",
 ["inputs"], "all parsed MIME values, with borrowed and owned strings",
 "No test calls the conversions.",
 ["mime.rs"],
 [("into_owned", "mime.rs")],
 ["values before and after conversion, clone and release of the input buffer"]),

prop("C24", "The compatibility fixes accept stray dots and change nothing else",
 "The `compatibility-fixes` feature changes one thing: inside of an address, domain or identifier, a dot may also be followed by another dot or end the dot-separated atom, so that `a..b@c.` or `<x.@y..z>` are accepted and reported with all of their dots. A leading dot is still refused. Whatever is understood without the feature is read identically with it, nothing else starts being accepted, and without the feature such stray dots are refused.",
 ["inputs", "configurations"], "all messages, read with and without the feature",
 "No test enables the feature; every short arrangement of dots in every place of a dot-atom, and the absence of any other effect, have to be looked at.",
 ["parsing/common.rs", "parsing/address.rs", "parsing/fields.rs"],
 [("dot_atom_text", "parsing/common.rs")],
 ["parsed messages in two builds of the library, with and without the feature"]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
print(len(props))
