"""The properties; gen.py writes properties.jsonl and MANIFEST.json from them."""

PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=(), na=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                 "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                 "observe_at": list(observe), "hook_needed": None},
        technique=technique, note=note, **({"na": na} if na else {})))


ENUM = "bounded exhaustive enumeration of executions of the real code against a reference model (stateless model checking)"

P("P01", "Parsing any byte string ends in a value or an error, never a crash",
  "For every byte string, parsing it as a tachograph file returns, within time and memory proportional to its size, either an error or a file; it never panics or hangs. Every file it returns can be marshalled back, verified and anonymised without a panic and within the same bounds, with a result or an error; and it can be written as protobuf binary (from which it reads back equal) and protobuf JSON.",
  ["inputs"], "all byte strings; explored: all short strings; every beginning and end of a set of structured driver card, raw card and VU files, every piece cut out of them, every byte changed, edge values in neighbouring bytes and in pairs of bytes; every kind of content at every length, zero to the largest; chains of activity records of every kind of step; many records and transfers",
  "Tests parse a handful of valid files; malformed lengths, counts, pointers and code pages are a space no fixture list covers.",
  ["unmarshal.go", "marshal.go", "verify.go", "internal/card", "internal/vu", "internal/dd"],
  [("length checks before slicing", "internal/vu/*.go, internal/card/*.go"), ("error returns", "unmarshal.go")],
  ENUM.replace("against a reference model ", "") + ", built with a step counter before every statement",
  "The library is built with a counter before every statement, so that time is a number of statements, and does not depend on the machine; limits are 200 statements and 4000 bytes of memory per byte of input, beyond 10000 and 48 MB (measured: 24 statements).",
  observe=["tachograph.UnmarshalFile", "tachograph.MarshalFile", "tachograph.VerifyFile", "protojson.Marshal"])

P("P02", "Card files split into records and join again without loss",
  "A card download splits into exactly the tag-length-value records it consists of: each keeps its file identifier, its kind (data or signature), its generation, its length and its value, in order. Joining the records gives the original bytes. Input that ends inside a record is refused.",
  ["inputs"], "all byte strings that start like a card file: any number of records, any tag, any of the 65536 record lengths, any cut",
  "Fixtures have a few dozen records with common tags and short values; tag/length combinations and cut points are a product space.",
  ["internal/card/rawcardfile.go", "unmarshal.go", "marshal.go"],
  [("record scanner", "internal/card/rawcardfile.go"), ("record writer", "internal/card/rawcardfile.go")],
  ENUM, "All 65536 file identifiers, all 65536 record lengths, record sequences to depth 5 with every cut, records around every scanner buffer boundary; the oracle is a 15-line splitter.",
  observe=["card.UnmarshalRawCardFile", "card.MarshalRawCardFile"])

P("P03", "The kind of a file and the type of a card follow from its content",
  "A file is read as a card download, as a vehicle unit download, or refused, by its leading bytes alone; a card download is a driver card exactly when all its data files belong to a driver card and no other card type is tried first, and is otherwise kept as raw records that marshal back to the same bytes. Signature records do not influence the type, and classifying does not change the data.",
  ["inputs"], "all two-byte prefixes; all sets of up to four elementary files (data or signature, either generation); every complete card type file set with any two changes",
  "Tests classify a few real cards; the sets of files that can be present is a power set of 38 identifiers.",
  ["unmarshal.go", "internal/card/infer.go"],
  [("file type inference", "unmarshal.go"), ("card type inference", "internal/card/infer.go")],
  ENUM, "All 65536 prefixes; all file sets of size three (thorough: four); complete sets with two deviations; oracle is the file structure table of the regulation's appendix 2.",
  observe=["tachograph.UnmarshalFile", "card.InferFileType"])

P("P04", "Each elementary file of a driver card reaches its own place",
  "Parsing a driver card stores every elementary file, and its signature, in the application (generation 1 or 2) its record names, whatever the order of the records and whichever other files are present; an absent file leaves its place unset, and no file's content or signature appears in another file's place. Marshalling writes each file once, in its own record, directly followed by its own signature.",
  ["inputs", "histories"], "record sequences: subsets and permutations of the elementary files of both applications, with and without signatures",
  "Tests parse complete cards in the usual order; routing errors show only for particular subsets, orders and signature patterns.",
  ["internal/card/driver_card_file.go"],
  [("routing by file and generation", "internal/card/driver_card_file.go"), ("signature follows its data record", "internal/card/driver_card_file.go")],
  ENUM, "All pairs (thorough: triples) of data/signature records in either order, all single omissions and transpositions of the complete card, every signature pattern with two deviations; oracle is a routing table.",
  observe=["tachograph.UnmarshalFile", "tachograph.MarshalFile"])

P("P05", "A driver card that parses marshals to the same bytes",
  "For a driver card file whose elementary files appear once each in the standard order, marshalling the parsed file gives exactly the original bytes, including reserved bits, padding and unused record slots. If it cannot, it reports an error instead of writing different data.",
  ["inputs"], "all values of all bytes of every elementary file of a driver card, singly and in pairs of boundary values, at several record counts",
  "The golden files hold typical values; padding variants, reserved bits, unknown codes and stale record slots are what breaks fidelity and no fixture enumerates them.",
  ["internal/card", "internal/dd", "marshal.go"],
  [("raw data canvas", "internal/dd/*.go Append*"), ("file writers", "internal/card/*.go Append*")],
  ENUM, "Every byte position of every elementary file takes all 256 values, and pairs take boundary values, inside a complete card; compared byte for byte.",
  observe=["tachograph.UnmarshalFile", "tachograph.MarshalFile"])

P("P06", "The cyclic activity buffer yields its daily records in order",
  "For every circular daily-activity buffer, wherever the oldest and newest pointers lie and however records wrap around the end, the parsed days are exactly the records on the chain from the newest back to the oldest, in chronological order, and nothing beyond a record whose length is impossible or whose link leads nowhere (where a link disagrees with the record it leads to, a reader may stop). The pointers and the whole buffer survive marshalling unchanged.",
  ["inputs", "histories"], "all write histories of small cyclic buffers (every rotation, every record size mix, every number of overwritten records), plus corrupted lengths and pointers",
  "Tests use two real buffers, at one rotation each; wrap-around inside a header or a record happens at particular offsets only.",
  ["internal/card/activity.go"],
  [("backwards iterator over previous-record lengths", "internal/card/activity.go"), ("wrap-around copy", "internal/card/activity.go")],
  "explicit-state exploration: a reference writer generates every reachable buffer state, each replayed on the real parser",
  "A reference model of the card's cyclic writer is run for every history up to the bound; each reachable state (buffer, oldest, newest) is parsed by the real code and compared with the model's live record list; then every single corruption of lengths and pointers.",
  observe=["tachograph.UnmarshalFile"])

P("P07", "Daily activity records decode every change word as the regulation says",
  "A day's record gives its date, presence counter, distance and, for each two-byte activity change, the slot, driving status, card status, activity and minute that the regulation's bit layout defines, in order. No valid change is lost or invented, for any of the 65536 words and any number of changes, on cards and in vehicle unit downloads alike.",
  ["inputs"], "all 65536 change words; all sequences of representative words up to length four; every value of every header byte",
  "Tests see the words that occur in fixtures; single bit-field slips in unusual combinations stay invisible.",
  ["internal/card/activity.go", "internal/dd/activity_change_info.go", "internal/vu/activities.go"],
  [("bit field decoding", "internal/dd/activity_change_info.go")],
  ENUM, "All 65536 words, decoded by an independent bit-field table; sequences to depth four; all values of each header byte.",
  observe=["tachograph.UnmarshalFile", "dd.UnmarshalOptions.UnmarshalActivityChangeInfo"])

P("P08", "Card event and fault records decode field by field in their own slots",
  "Every event and fault record of a card is reported in the position it occupies, with the type, begin and end times and vehicle registration its bytes encode, for both generations; an unused slot stays unused. Nothing is moved between records or dropped.",
  ["inputs"], "all values of every byte of the records, boundary pairs, all record counts per group, unused and used slots in any pattern",
  "Fixtures hold mostly empty slots and few types.",
  ["internal/card/events.go", "internal/card/faults.go", "internal/dd"],
  [("record loop", "internal/card/events.go, internal/card/faults.go"), ("enum annotations", "internal/dd/enum.go")],
  ENUM, "Every byte of a record takes all 256 values, pairs take boundary values, and every used/unused pattern of a small file is enumerated; the oracle is an independent decoder.",
  observe=["tachograph.UnmarshalFile"])

P("P09", "Vehicle and vehicle-unit usage records decode field by field",
  "The vehicles-used and vehicle-units-used files give the newest-record pointer and, for each slot in order, the odometer values, first and last use, registration, counter and (generation 2) vehicle identification number (leading blanks included, the padding behind it removed) or device identifiers that the bytes encode. Leftover bytes never shift a record.",
  ["inputs"], "all values of every byte, boundary pairs, all small record counts and leftover lengths, both generations",
  "Fixtures hold typical vehicles only.",
  ["internal/card/vehicles_used.go", "internal/card/vehicles_used_g2.go", "internal/card/vehicle_units_used.go"],
  [("record loop", "internal/card/vehicles_used*.go"), ("record codec", "internal/dd/card_vehicle_record*.go")],
  ENUM, "All byte values per position, boundary pairs, record counts 0..3 and every leftover length; independent decoder.",
  observe=["tachograph.UnmarshalFile"])

P("P10", "Places, GNSS positions and specific conditions decode field by field",
  "Place, GNSS accumulated-driving and specific-condition records give, in slot order, the time, entry type, country, region, odometer, position (sign included) and condition their bytes encode, with the newest-record pointer where the generation has one. An unused slot never disturbs its neighbours.",
  ["inputs"], "all values of every byte, boundary pairs, all small record counts and leftover lengths, both generations",
  "Fixtures cover one region, one hemisphere and few entry types.",
  ["internal/card/places.go", "internal/card/places_g2.go", "internal/card/gnss_places.go", "internal/card/specific_conditions.go", "internal/card/specific_conditions_g2.go"],
  [("record loop", "internal/card/places*.go"), ("record codec", "internal/dd/place_record*.go, internal/dd/geo_coordinates.go")],
  ENUM, "All byte values per position, boundary pairs, record counts 0..3 and every leftover length; independent decoder.",
  observe=["tachograph.UnmarshalFile"])

P("P11", "Identity, licence, chip and usage files decode field by field",
  "The fixed-size files of a driver card (chip and card identification, application identification of either generation, card holder and licence data, current usage, last control, last download) give exactly the numbers, codes, names, dates and card numbers their bytes encode. A value the regulation does not define is refused or reported as unrecognised, never as another value.",
  ["inputs"], "all values of every byte of each file, boundary pairs, every truncation",
  "Fixtures hold one or two real cards' values.",
  ["internal/card/icc.go", "internal/card/ic.go", "internal/card/identification.go", "internal/card/driving_licence.go", "internal/card/current_usage.go", "internal/card/control_activity.go", "internal/card/card_download.go", "internal/card/application_identification*.go"],
  [("fixed layout decoders", "internal/card/*.go"), ("enum annotations", "internal/dd/enum.go")],
  ENUM, "All 256 values at every byte position, boundary pairs, every truncation; independent decoder.",
  observe=["tachograph.UnmarshalFile"])

P("P12", "Names decode by their code page and encode back to the same bytes",
  "A string field is decoded with the code page its first byte names: each byte gives the character that ISO 8859 part (or the listed page) assigns it, padding is stripped from the ends only, and the result is always valid Unicode. Writing the parsed field, at its fixed length, gives the original bytes, and any text of the characters its code page has can be written into a field that has room for it, and is read back.",
  ["inputs"], "all 256 code page bytes x all 256 character bytes, at the beginning, middle and end of the field, with every padding pattern of up to four bytes",
  "Tests decode a few names in one or two code pages.",
  ["internal/dd/string_value.go", "internal/dd/ia5_string_value.go"],
  [("code page table", "internal/dd/string_value.go"), ("padding trim", "internal/dd/string_value.go")],
  ENUM, "All 65536 (code page, byte) pairs in three positions plus all padding patterns; the oracle is the golang.org/x/text character map tables selected by an independent table.",
  observe=["dd.UnmarshalOptions.UnmarshalStringValue", "tachograph.UnmarshalFile"])

P("P13", "Dates, times, numbers and coordinates convert without loss or slip",
  "Every encoded timestamp, calendar date, month and year, binary-coded decimal, odometer value and coordinate decodes to the value the data dictionary defines, and every such value encodes to bytes that decode to it. An encoding that denotes no value is refused or reported as unset, never decoded to a different value.",
  ["inputs"], "all 2^16 / 2^24 encodings where the domain is that small; every byte value in every position and all boundary combinations where it is 2^32",
  "Tests check a handful of values per type.",
  ["internal/dd"],
  [("scalar codecs", "internal/dd/time_real.go, date.go, datef.go, bcd_string.go, odometer.go, geo_coordinates.go")],
  ENUM, "Complete enumeration of 1-, 2- and 3-byte domains, boundary lattice of 4-byte domains, against independent arithmetic.",
  observe=["dd.UnmarshalOptions", "dd.MarshalOptions"])

P("P14", "Parsing is a pure function of the bytes; results do not share memory",
  "Parsing does not modify its input, gives equal results for equal bytes every time, and its result stays the same when the caller afterwards overwrites the input buffer or parses, marshals, verifies or anonymises other files. Marshalling and anonymising do not modify the file they are given.",
  ["inputs", "histories"], "operation sequences (parse, scribble on the input, marshal, anonymise, verify, parse another file) up to depth four over files holding every structure",
  "Tests parse once and compare at once; aliasing shows only when a buffer is reused.",
  ["unmarshal.go", "marshal.go", "internal/card", "internal/vu"],
  [("copies of raw data", "internal/card/*.go, internal/vu/*.go")],
  "exhaustive enumeration of operation sequences on the real code, comparing every live object after every step",
  "All sequences of six operations over three files up to depth four, every object re-compared with its snapshot after every step.",
  observe=["tachograph.UnmarshalFile", "tachograph.MarshalFile"])

P("P15", "Anonymised structures hold no personal data and still parse",
  "Anonymising a card's identification (of any card type), its vehicles used or its places (either generation), or a driver identification or activity change, replaces every name, address, card number, authority, birth and card date, vehicle registration, time, country and region of a place, and coordinate by the documented constant, whatever it was, rounds odometers down to the documented multiple, and removes signatures and every byte of the original data; what is documented as kept (record count and order, pointer, issuing and registering country, language, entry type, counters) is kept. Inputs that differ only in personal data give equal results; the input is left unchanged; anonymising again changes nothing; and the result, put back into its card, marshals and parses again to the anonymised values.",
  ["inputs"], "structures of every card type with any two fields set, cleared or changed (thorough: three), and structures read from cards with any value in any byte, edge values in two, and any arrangement of blank, full and used records",
  "Golden tests compare one anonymised fixture; a field or raw byte that leaks only for some values or structures passes.",
  ["internal/card/identification.go", "internal/card/vehicles_used.go", "internal/card/places.go", "internal/card/places_g2.go", "internal/dd"],
  [("anonymise functions", "internal/card/*.go Anonymize*, internal/dd/*.go Anonymize*")],
  "exhaustive two-run (non-interference) comparison and comparison with the documented result, on the real code",
  "Every pair of field edits of every structure and every byte value of the elementary files; each run twice, once with the personal data replaced by filler, and compared with the documented result.",
  observe=["card.AnonymizeIdentification", "card.AnonymizeVehiclesUsed", "card.AnonymizePlaces", "card.AnonymizePlacesG2", "dd.AnonymizeActivityChangeInfo", "dd.AnonymizeDriverIdentification"])

P("P16", "Generation 1 certificates verify exactly when genuinely signed",
  "A generation 1 certificate is accepted exactly when its signature, a number below the modulus, opens with the given authority's key to a well-formed certificate content whose hash matches, and the certificate's authority reference names that key's holder; the content exposed after acceptance (holder, authority, end of validity, key) is the signed content. Every altered signature, remainder or reference is refused and exposes no key.",
  ["inputs"], "genuine chains made with generated keys: every byte of every certificate altered to all values, every wrong authority, every malformed padding",
  "Tests verify one real chain; an acceptance condition that is too weak passes all of them.",
  ["internal/security"],
  [("message recovery and checks", "internal/security/rsa*.go")],
  ENUM, "Every single-byte alteration (all values) of certificate and of authority key identity, every forgeable inner layout signed with the real private key; the oracle is an independent ISO 9796-2 opening.",
  observe=["security.VerifyRsaCertificateWithCA", "security.VerifyRsaCertificateWithRoot"])

P("P17", "Generation 2 certificates verify exactly when genuinely signed",
  "A generation 2 certificate is accepted exactly when its signature over its body verifies with the given authority's public key on that key's curve and hash; every altered body or signature, every other authority and every other curve is refused. The parsed certificate exposes the signed fields for every curve and field length the regulation allows.",
  ["inputs"], "chains generated on every supported curve: every byte altered, every wrong authority, every truncation",
  "Tests verify real certificates on one curve or two.",
  ["internal/security"],
  [("ECDSA verification", "internal/security/ecc*.go")],
  ENUM, "Every single-byte alteration of certificates on each of the supported curves, every authority/curve mix-up, every truncation; oracle is crypto/ecdsa or math/big over an independent split.",
  observe=["security.UnmarshalEccCertificate", "security.VerifyEccCertificateWithCA"])

P("P18", "A verified card means every certificate chain on it checks out",
  "Verifying a driver card succeeds exactly when, for each application present, the card's certificate verifies under the authority the resolver gives for the reference it names, and a generation 1 authority whose key must still be opened verifies under the root key (keys the resolver itself supplies are taken as given); any missing, mismatching, unobtainable or forged link makes it fail with an error. After a failed verification no certificate of the card whose chain was not verified counts as valid.",
  ["inputs", "fault_sequences"], "all combinations of application presence, certificate states (genuine, altered, missing, wrong authority) and resolver answers (right, wrong, missing, error) for each call",
  "Tests verify one card with a working resolver.",
  ["verify.go", "internal/card/driver_card_file.go", "internal/security"],
  [("chain walk per application", "verify.go")],
  "exhaustive fault injection at the resolver boundary and in the card's certificates",
  "Product of certificate states and resolver answers at every call, complete.",
  observe=["tachograph.VerifyFile"])

P("P19", "The certificate resolver chain answers from the first source that can",
  "Asking a chain of certificate sources gives the answer of the first source, in order, that has the certificate, consulting later ones only when earlier ones fail; it fails only if all fail, with an error that carries theirs. A certificate is returned exactly as its source gave it, on every call.",
  ["histories", "fault_sequences"], "all chains of up to four sources, each answering or failing per call, and all call sequences to depth four",
  "Tests use one source or a fixed pair.",
  ["internal/cert/chain.go", "internal/cert/resolver.go"],
  [("ordered fallback", "internal/cert/chain.go")],
  "exhaustive fault injection: every answer pattern of every source for every call",
  "All chains up to four sources times all answer patterns, sequences of calls to depth four.",
  observe=["cert.ChainResolver"])

P("P20", "Remote certificates are returned only when fetched completely and correctly",
  "Looking a certificate up remotely returns it only when the index was read, lists that holder, and the listed resource was answered completely with success; every other answer of the servers (error status, truncated or malformed body, broken connection, content that is no well-formed certificate of that generation) gives an error. A failed lookup does not spoil later lookups.",
  ["fault_sequences", "histories"], "all server answers per request from a menu of faults, sequences of up to three lookups",
  "Tests have no network; none of the fault paths run.",
  ["internal/cert/client.go"],
  [("index load, lookup and download", "internal/cert/client.go")],
  "exhaustive fault injection at the HTTP transport",
  "Every answer from a menu of about 46 per request, all lookup sequences to depth three.",
  observe=["cert.Client"])

P("P21", "The embedded certificate store returns exactly the named certificate",
  "For every holder reference, the embedded store returns the embedded certificate filed under that reference if there is one and an error otherwise; what it returns is that holder's certificate of that generation, byte for byte, and its root keys are the published ones. Callers cannot damage the store for each other.",
  ["inputs", "histories"], "every embedded file; every listed reference; all references within a neighbourhood of listed ones; sequences of lookups and mutations of results",
  "Tests look one certificate up.",
  ["internal/cert/embedded.go", "internal/cert/certcache", "internal/cert/root.go"],
  [("lookup by holder reference", "internal/cert/embedded.go")],
  ENUM, "Every embedded file and index entry, single-digit and single-bit neighbours of each reference; lookup/mutate sequences to depth three.",
  observe=["cert.EmbeddedResolver"])

P("P22", "Vehicle unit downloads split into their transfers without loss",
  "A vehicle unit download splits into exactly the transfers it consists of, each with its type, generation and full content, in order; the file's generation and version are those its transfers show. A download that ends inside a transfer, or that has bytes that belong to none, is refused rather than partly read.",
  ["inputs"], "sequences of transfers of every type and generation with varied record counts, every cut point, every count byte",
  "Fixtures are a few real downloads; count fields and cut points are a product space.",
  ["internal/vu", "unmarshal.go"],
  [("transfer sizing by embedded counts", "internal/vu/*.go"), ("generation dispatch", "internal/vu/*.go")],
  ENUM, "All transfer sequences to depth three over all transfer types with record counts 0..2, every cut of each, every value of each count byte; oracle is an independent splitter from the regulation's message layouts.",
  observe=["vu.UnmarshalRawVehicleUnitFile", "tachograph.UnmarshalFile"])

P("P23", "The vehicle unit overview decodes field by field",
  "A generation 1 overview gives the vehicle's identity, current time, downloadable period, card slot states, last download, company locks and control activities that its bytes encode, for every content and every number of locks and controls.",
  ["inputs"], "all values of every byte, boundary pairs, lock and control counts 0..3",
  "Fixtures hold one or two overviews.",
  ["internal/vu"],
  [("overview decoder", "internal/vu/overview*.go")],
  ENUM, "All 256 values at every byte position, boundary pairs, counts 0..3; independent decoder.",
  observe=["tachograph.UnmarshalFile"])

P("P24", "Vehicle unit daily activities decode record by record",
  "A generation 1 daily activity transfer gives its date, odometer, card insertion records, activity changes, places and specific conditions, each complete and in order, for every content and every combination of record counts.",
  ["inputs"], "all values of every byte, boundary pairs, each record count 0..3 in every combination",
  "Fixtures hold few days.",
  ["internal/vu"],
  [("activities decoder", "internal/vu/activities*.go")],
  ENUM, "All 256 values at every byte position, boundary pairs, all count combinations; independent decoder.",
  observe=["tachograph.UnmarshalFile"])

P("P26", "Concurrent use of the library gives the sequential results",
  "Goroutines that parse, marshal, verify, anonymise or look certificates up at the same time, on separate files or sharing a file for reading and a resolver, each get the result they would get alone; no data race occurs.",
  ["schedules"], "every schedule with one preemption (two for short operations) between any two statements, of every pair of operations; every interleaving of three operations at their resolver and network calls; the race detector on every pair",
  "Tests run one operation at a time.",
  ["internal/cert", "unmarshal.go", "marshal.go", "verify.go"],
  [("lazily built tables", "internal/cert/embedded.go, internal/dd/enum.go")],
  "preemption-bounded exhaustive interleaving of the real code at every statement under a cooperative scheduler, with the race detector on every pair",
  "The library is built with a scheduling point before every statement; every pair of operations runs under every schedule with a bounded number of preemptions, and three operations in every order of their calls; every pair (triple when thorough) also runs free under the race detector.",
  observe=["tachograph.UnmarshalFile", "tachograph.VerifyFile"])

P("P27", "The command line prints every file it is given, in order, or fails",
  "The parse command prints one JSON document per file argument, in order, equal to what the library parses from that file; it exits with failure when any file cannot be read, parsed or printed, and never reports success after skipping one.",
  ["inputs", "fault_sequences"], "all argument lists of up to three files from a menu of good, malformed, missing and unreadable ones; names, places and kinds of file; outputs that cannot be written",
  "The command line has no tests.",
  ["cmd/tachograph/main.go"],
  [("parse command", "cmd/tachograph/main.go")],
  ENUM + " of the built program", "All argument lists up to length three over a menu of ten kinds of file, some fifty names, places and kinds of file (links, pipes, long files, odd names) alone and among others, and outputs that cannot be written, each executed on the built binary.",
  observe=["stdout, stderr and exit status of cmd/tachograph"])

P("P28", "The certificate fetch tool's index lists exactly what it stored",
  "A run of the fetch tool that succeeds leaves an index that lists the root and exactly those certificates of the listing pages that were downloaded completely, each with the references, country, expiry and URL it has, in order of country and newest first, and whose file (never that of a different certificate) holds the bytes the server sent; nothing else is left in the cache folders, whatever order concurrent downloads end in. Failed, truncated, oversized or HTML answers are skipped with a warning; without the root certificate or a listing page the run fails and the index stays as it was. Nothing is written outside the output directory, and no root file that is not a root certificate is left.",
  ["inputs", "fault_sequences", "schedules"], "all server answers from a menu per request over small listings, listing rows from a menu of well and ill formed ones, orders in which concurrent downloads end",
  "The tool has no tests, and needs a server.",
  ["tools/cmd/fetch-certs"],
  [("download loop and index", "tools/cmd/fetch-certs/main.go")],
  "exhaustive fault injection at the HTTP transport of the built program against a model of the index",
  "All combinations of answers from a menu for the root, the listing pages and each certificate, over listings of rows from a menu; each run is of the program built from the tree, with its transport answered by the check.",
  observe=["files in the output directory, exit status"])

P("P29", "Changing fields of a parsed file changes those bytes and no others",
  "When a caller changes fields of a parsed driver card to other values that the format can hold and marshals it, the result parses to the changed file: the new values are in the changed fields and every other field is as it was; and every byte that does not encode a changed field is as it was (except that changed daily activities are laid out anew, from the start of their buffer).",
  ["inputs", "histories"], "every edit that turns the content of an elementary file into that of one with one byte (any value) or two bytes (edge values) changed, alone and in a full card",
  "Tests marshal what they parsed, unedited, so that stale raw data that wins over an edit passes.",
  ["internal/card", "internal/dd"],
  [("raw data canvas overwritten by fields", "internal/dd/*.go Append*")],
  "bounded exhaustive enumeration of field edits on the real code: the edited file must marshal to the bytes the edit was read from",
  "For every elementary file, every value of every byte and edge values of every pair of bytes is parsed, the fields that differ are transplanted into the parsed original, and what is marshalled must be the changed bytes, or mean the same and differ only in bytes that encode the edit.",
  observe=["tachograph.MarshalFile", "tachograph.UnmarshalFile"])

P("P30", "A value its field cannot hold is refused when written, not cut to fit",
  "When a caller sets one field of a parsed driver card (a number, time, text, octet string or code; not those that only say how the rest is laid out, and not those of certificates, which are written as issued) to any value its Go type allows and marshals the file, either the marshalled file parses to exactly what was set, all other fields as they were, or marshalling returns an error. Nothing is cut, wrapped around, dropped or replaced, and nothing is written that cannot be read. (Octet strings shorter than their field are filled up with zeros, and seconds 0 is the format's \"no time\".)",
  ["inputs"], "all fields of all elementary files, with and without the bytes kept from reading, set to any value of their Go type",
  "Tests write what they read, whose values fit; a conversion that keeps the low byte only shows for values that do not.",
  ["internal/card", "internal/dd"],
  [("range checks of the writers", "internal/card/*.go, internal/dd/*.go Append*")],
  ENUM, "Every scalar field of every elementary file (of files that between them have every field the format can give), with and without raw data, is set to numbers next to every power of two and every limit of the format, texts of every length to 80, octet strings, every code of its enumeration and codes it does not have; the file must be refused or read back as set.",
  observe=["tachograph.MarshalFile", "tachograph.UnmarshalFile"])
P("P31", "Records added to, taken out of or moved in a parsed file are read back",
  "When a caller adds records to the lists of a parsed driver card, takes some out or moves them (records read from cards, with or without the bytes kept from reading; daily records and their activity changes once the bytes of their buffer are cleared), or changes, adds, removes or moves the records of a card kept raw, and marshals the file, either the result parses to the same records in the same order with every other field as it was and every other elementary file's record unchanged, or marshalling returns an error. No count of records makes the writer cut, drop or repeat records. (Fields that only say where daily records stand, and those of raw records that follow from their tag, are written to fit.)",
  ["inputs", "histories"], "all short sequences of edits (delete, copy, insert, swap, empty) of every list of records, and lists of every length up to more than a record can hold",
  "Tests marshal files with the records they were read with; a length or pointer that is kept from reading only goes wrong when the list changes.",
  ["internal/card"],
  [("lengths and pointers computed when writing", "internal/card/driver_card_file.go, internal/card/activity.go"), ("raw card writer", "internal/card/rawcardfile.go")],
  ENUM, "For files with 1..3 records of every kind, alone and in a full card, all sequences of 1 or 2 (thorough: 3) edits of their lists of records, and lists grown to lengths around powers of two and the limits of a record; the same for the records of raw cards, with any length, tag and value; the output must be refused or read back as it stands, with all other records of the card unchanged.",
  observe=["tachograph.MarshalFile", "tachograph.UnmarshalFile"])
P("P32", "A field cleared before writing is written blank, and nothing else changes",
  "When a caller clears fields of a parsed driver card (single values, texts, times, structures, whole elementary files or a whole application; with or without the bytes kept from reading) and marshals the file, marshalling either returns an error, or writes a file that can be read, in which every field that was not cleared has the value it had and the records of all other elementary files are the same. What is written does not depend on the value that was cleared: nothing of it is left in the output. (The clearing of a field that says whether a record or a structure is in use, or of a code whose meaning is unrecognised, may make the format read what belongs to it in another way. The identification of the chip, by which a card is recognised, is not cleared as a whole; certificates are written as issued or not at all.)",
  ["inputs"], "all sets of up to two fields, and all but up to two, of every elementary file, with and without raw data; all pairs of files that differ in one field, which is cleared in both",
  "Tests marshal complete messages; a part that is left out shifts what follows or leaves old bytes in place, for particular fields and combinations.",
  ["internal/card", "internal/dd"],
  [("lengths of what is written", "internal/card/*.go, internal/dd/*.go Append*"), ("painting over kept bytes", "internal/dd/*.go Append*")],
  ENUM, "Every field of every elementary file (of files that between them have every field the format can give) is cleared, alone, in pairs, and all but one or two, with and without raw data, alone and in a full card; the output must be refused or read back the same in all other fields; for every two files that differ in a cleared field only, the outputs must be the same bytes.",
  observe=["tachograph.MarshalFile", "tachograph.UnmarshalFile"])
P("P33", "Each data type of the dictionary reads and writes as specified, by itself",
  "Every reader and writer of a data type of the data dictionary (codes, numbers, dates, times, texts, card numbers, registrations, positions, and the records made of them, of either generation, whether or not a file that can be parsed today holds them) agrees with the regulation: the reader accepts bytes of the type's length only and gives exactly the values they encode, or refuses what has no meaning; writing what was read gives the same bytes, or an error if they have no meaning; writing a value whose fields were set or cleared gives bytes of the type that read back as that value, or an error, and leaves what stands in front in the output, and the value itself, alone. Every code has its one name, and that name its code.",
  ["inputs"], "every type: all values of small types, every byte value in every position, all edge patterns in any two fields, every length; all fields set to about 150 values and cleared in any two; all codes",
  "The types' tests use a few literals each, and many types have no test at all; a type whose writer is used by no file yet is not exercised by anything.",
  ["internal/dd"],
  [("readers", "internal/dd/*.go Unmarshal*"), ("writers", "internal/dd/*.go Append*"), ("codes", "internal/dd/enum.go")],
  ENUM, "Each reader is compared with the reference decoder on every enumerated content and length; what the writer makes of the result, of it without its raw bytes, and of it with fields set or cleared, must be the same bytes, or be read back as the same value, or be refused.",
  observe=["dd.UnmarshalOptions.Unmarshal*", "dd.Append*", "dd.UnmarshalEnum", "dd.MarshalEnum"])
