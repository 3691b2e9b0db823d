N = {}
N["H01"] = "The unsafe constructors (`from_bytes_unchecked`) may be called with anything by unsafe code outside the crate: excluded by their contract. The list of places where a caller's text is stored unchecked is the known-findings list: refusing such text would change infallible signatures (`ETag::new`, `set_realm`...), so they are recorded and not repaired; any further place is a violation."
N["H02"] = "The demand on a private constructor's argument is closed over its callers."
N["H03"] = "Inlined down to `HashMap`; the standard map is trusted. Error paths must have no effect, also when the failure comes from the second of several values."
N["H04"] = "Three public conversions can make an empty list and cannot fail by their signature: known findings. P01 relies on this property for the `.last().unwrap()` readers."
N["H05"] = "The documented name of each header is a frozen table."
N["H06"] = "The classification follows the RFC grammar (frozen table). Content-Encoding and Transfer-Encoding keep the last recognised coding (`last` over all lines): two undecided obligations say so."
N["H07"] = "The X-Forwarded-* fallback of Forwarded is part of the definition of absent."
N["H08"] = "Sorting covers everything reaching it; a conditional sort is decided when the condition says that the table is empty, otherwise undecided when it looks at a length."
N["H09"] = "Keywords are the tokens in literals outside quotes, and wholly quoted constants. Accept's `q` is undecided (its reader compares characters). Parameters that RFC 7617 fixes (`charset=\"UTF-8\"`) are exempt. Numbers and free text are not keywords (Z02/Z05)."
N["H10"] = "ETag's grammar has no escapes, so the backslash is allowed there. The four open findings are ETag's unchecked constructors and public variants."
N["P01"] = "Excluded: termination, stack depth, allocation failure; `From<&str>` conversions that are documented to panic; conversions from the `http` crate (C01 lists those). Assumes H04 and H01. Arithmetic is judged as with overflow checks on, so a debug build is covered too."
N["P02"] = "`Forwarded` has its own `ParseError` without a status, which becomes 500 only when a caller converts it. Referer and SourceMap report a failing join with the base as 500 (open: an existing test pins it)."
N["T01"] = "Rows: 39 names, several letter cases, and near misses; plus, for every accepting path, the condition that identifies the text."
N["T02"] = "Numbers 100-999 and width edges (0, 65535, 65536+n, negatives) in every integer visitor."
N["T03"] = "Seconds of the delta directives at 0, 7, 3600, 2^32+5, 2^63."
N["T04"] = "The weekday of a date is private; the agreement is observed through acceptance (is the name known) and through the printer of the accepted value."
N["T05"] = "serde formats are represented by the visitor methods they may call."
N["D01"] = "Leniencies of the existing scanners that the property does not forbid: Feb 30/31 are accepted (the code documents 31 as the limit), and the separator between date and time of RFC 850 dates is not checked."
N["D02"] = "Undecided rows are calendar rows whose conditions contain a division that the table evaluator refuses; they are counted in the evidence."
N["Z03"] = "That the standard sort sorts is trusted; what is decided is that the comparison is the documented total order for every region of weights."
N["N01"] = "`gzip; q=0.5` with a blank is refused by the parser and q=0 stays selectable: outside the statement."
N["N02"] = "Comparisons must be false for not-a-number (`contains`, `>=`/`<=`), which the MIR comparison operators say."
N["C01"] = "The seven open findings are panicking `From` conversions whose signatures cannot report a failure."
N["B01"] = "The inner reader is trusted to report no more bytes than the buffer it was given."
N["B02"] = "The file constructors' metadata length is taken as the file's length."
N["M03"] = "Delivery order and wake-ups are async-channel's."
N["M04"] = "Four operations are compared at the weakest level (same primitives) because their control flow differs legitimately."
N["S02"] = "How the sources of one directive are joined is decided for the join form; other forms are checked for their literals only."
N["I01"] = "The values iterator is proved from an arbitrary reachable state (inner, slot, cursor) rather than from its start, so the result holds after any history of calls."
