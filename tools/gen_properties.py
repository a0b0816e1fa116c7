#!/usr/bin/env python3
"""Single source for properties.jsonl (run after editing the table)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
S = "program/src/"
C = "clients/cli/src/"

# ---------------------------------------------------------------- acceptance
p("C01", "A report is only accepted within one epoch of the violation",
  "A duplicate-block report succeeds only if the violation slot is not in the future and at most slots_per_epoch slots (as given by the cluster's epoch schedule) have elapsed since it; exactly slots_per_epoch is still accepted. A slot in the future is refused with ArithmeticOverflow and an older one with ExceedsStatuteOfLimitations.",
  ["inputs", "configurations"], "every violation slot, clock slot and epoch schedule",
  "The test tries three clock values with the default schedule; it never tries the boundary or another epoch length.",
  [S+"processor.rs"], [("elapsed-slots check before the proof is read", S+"processor.rs verify_proof_data")],
  observe=["result of the duplicate-block instruction"])
p("C02", "Both shreds must carry a verified signature of the accused node",
  "A report succeeds only if the transaction's immediately preceding instruction is an ed25519 verification of two signatures by the accused node's key: the first over the merkle root recomputed from the first submitted shred with exactly the signature that shred carries, the second likewise for the second shred. Any disagreement in key, root or signature refuses the report.",
  ["inputs", "programs"], "every transaction layout, verification instruction, instruction data and pair of shreds",
  "Tests replace one part at a time in a well-formed transaction; the attacker picks all of them together.",
  [S+"duplicate_block_proof.rs", S+"sigverify.rs"],
  [("instruction introspection", S+"sigverify.rs inspect_verifications"), ("comparison with the shreds", S+"duplicate_block_proof.rs sigverify_shreds")],
  observe=["result of the duplicate-block instruction"])
p("C03", "Verification records are read exactly as the ed25519 precompile reads them",
  "The number of signatures is taken from the one byte the ed25519 precompile honours and must be at least two, the first two 14-byte records are decoded field by field at the precompile's offsets, and the key, message and signature are the bytes those records address. Records addressing data outside the reporting instruction itself, or out of its bounds, refuse the report.",
  ["inputs"], "every byte content of the verification instruction and the reporting instruction",
  "Tests only build verification instructions with the program's own helper, so counts, padding and offsets are always the regular ones.",
  [S+"sigverify.rs"], [("record decoding", S+"sigverify.rs inspect_verifications"), ("data slicing", S+"sigverify.rs get_data_slice")],
  observe=["result of the duplicate-block instruction"])
p("C04", "Both shreds must be for the reported slot",
  "A report succeeds only if the slot encoded in each of the two shreds equals the slot named in the instruction, which is also the slot recorded and used for the report address; otherwise it is refused with SlotMismatch.",
  ["inputs"], "every pair of shreds and reported slot",
  "One test exercises two mismatching pairs; a swapped operand or a check of only one shred for one shred type passes it.",
  [S+"duplicate_block_proof.rs", S+"processor.rs"], [("slot comparison", S+"duplicate_block_proof.rs check_shreds")])
p("C05", "Both shreds must have the same shred version",
  "A report succeeds only if the two shreds carry the same 16-bit shred version; otherwise, if nothing else is wrong, it is refused with InvalidShredVersion.",
  ["inputs"], "every pair of shreds", "The test uses a handful of version pairs.",
  [S+"duplicate_block_proof.rs"], [("version comparison", S+"duplicate_block_proof.rs check_shreds")])
p("C06", "Only genuinely conflicting shreds are accepted as proof",
  "Two signed shreds of one slot and version are accepted only if they (a) share a FEC set index but have different merkle roots, or (b) a coding shred's FEC set [index, index + data count) contains a larger FEC set index of the other, or are of the same type and (c) share index with different leader-signed payloads, or (d) are data shreds where one is last-in-slot and the other has a higher index, or (e) are coding shreds of one FEC set with different erasure configuration (data count, coding count, first coding index).",
  ["inputs"], "every pair of well-formed shreds",
  "The tests sample a few pairs per conflict kind; a wrong comparison or a dropped direction only shows for specific index, flag and count combinations.",
  [S+"duplicate_block_proof.rs", S+"shred.rs"], [("verdict", S+"duplicate_block_proof.rs check_shreds"), ("erasure comparison", S+"shred.rs check_erasure_consistency")])
p("C07", "The conflict verdict does not depend on the order of the shreds",
  "Submitting the same two shreds in the opposite order (with their signatures swapped accordingly) is accepted exactly when the original order is.",
  ["inputs"], "every pair of shreds", "Tests swap the order for a few hand-made pairs only.",
  [S+"duplicate_block_proof.rs"], [("verdict", S+"duplicate_block_proof.rs check_shreds")])
p("C08", "Every shred variant byte is classified as the protocol defines it",
  "Of the 256 values of the shred variant byte, exactly 0x40-0x4f, 0x60-0x6f, 0x70-0x7f are merkle coding shreds (0x5a being the unrelated legacy coding value) and 0x80-0x8f, 0x90-0x9f, 0xb0-0xbf merkle data shreds, with the low nibble as proof size, 0x60/0x90 chained, 0x70/0xb0 chained and resigned. 0x5a and 0xa5 are refused with LegacyShreds and every other value with InvalidShredVariant.",
  ["inputs"], "all 256 byte values", "Tests see the few variants the shredder generates.",
  [S+"shred.rs"], [("variant decoding", S+"shred.rs TryFrom<u8> for ShredVariant"), ("legacy refusal", S+"shred.rs new_from_payload")])
p("C09", "Shred header fields are read at the protocol's offsets",
  "Signature, variant, slot, index, version, FEC set index, data flags, data count, coding count and position are the little-endian values at byte offsets 0, 64, 65, 73, 77, 79, 85, 83, 85 and 87 with widths 64, 1, 8, 4, 2, 4, 1, 2, 2 and 2; last-in-slot means both top flag bits are set. A shred too short to contain a needed field is refused, never read out of bounds.",
  ["inputs"], "every payload of every length", "Parity with the validator's parser is tested on a few random shreds whose high-order bytes are mostly zero.",
  [S+"shred.rs"], [("offset constants and accessors", S+"shred.rs")])
p("C10", "The merkle root is recomputed from the whole signed part of the shred",
  "The root compared with the signed message is obtained by hashing the leaf prefix with every payload byte from offset 64 up to the merkle proof, then folding in each 20-byte proof entry with the node prefix, left or right by the parity of the leaf position (index minus FEC set index for data, data count plus position for coding), halving the position each level. A position that does not reach zero refuses the shred.",
  ["inputs"], "every payload, proof length and leaf position",
  "Random shreds of one tree depth exercise few positions and proof lengths, and never a position beyond the tree.",
  [S+"shred.rs"], [("merkle root recomputation", S+"shred.rs merkle_root, get_merkle_root, join_nodes"), ("proof location", S+"shred.rs get_proof_offset_and_size")])
p("C11", "Only leader-signed bytes can make two payloads differ",
  "When two shreds of the same type share slot and index, the comparison that decides whether their payloads differ ignores the retransmitter signature and every byte after the merkle proof, and considers every byte before it.",
  ["inputs"], "every pair of payloads, including over-long ones and both resigned and plain variants",
  "One test flips a retransmitter signature; payloads with bytes after the shred were never tried (a genuine defect was found and fixed here).",
  [S+"shred.rs"], [("payload comparison", S+"shred.rs is_shred_duplicate")])
# ---------------------------------------------------------------- report storage
p("C12", "A report lives at the address derived from node, slot and violation type",
  "A report is only ever written to the program-derived address of (accused node, little-endian slot, violation type) under this program, any other account is refused with InvalidViolationReportAcccount, and ownership is taken with exactly those seeds and bump. The public address helper used by clients derives the same address for every input.",
  ["inputs"], "every node key, slot, type and account passed", "Tests only pass the right account.",
  [S+"address.rs", S+"state.rs", S+"lib.rs"], [("address derivation", S+"address.rs"), ("address check", S+"state.rs store_violation_report"), ("client helper", S+"lib.rs get_violation_report_address")])
p("C13", "An existing report is never overwritten",
  "If the report account is owned by this program, is not empty and holds a nonzero version byte, a further report of that violation is refused with DuplicateReport and changes nothing; any other pre-existing state of the address does not by itself block the report.",
  ["inputs", "histories"], "every pre-state of the report account", "The test reports twice in a row with the same proof only.",
  [S+"state.rs"], [("existence check", S+"state.rs violation_account_exists"), ("refusal", S+"state.rs store_violation_report")])
p("C14", "The report account cannot be its own payout destination",
  "A report naming the report account itself as destination is refused with DestinationAddressIsReportAccount, so a report can always be closed.",
  ["inputs"], "every destination", "One test case.", [S+"state.rs"], [("destination check", S+"state.rs store_violation_report")])
p("C15", "A report account must be rent exempt before anything is stored",
  "A report succeeds only if the report account holds at least the rent-exempt minimum for the exact size of the report header plus the packed proof; otherwise it is refused with ReportAccountNotPrefunded.",
  ["inputs", "configurations"], "every balance, rent parameters and proof size", "Tests use a single rent configuration and always prefund the maximum, so an off-by-some size never shows.",
  [S+"state.rs"], [("prefund check", S+"state.rs store_violation_report")])
p("C16", "The recorded report names exactly what was verified",
  "The stored header is version 1, the reporter, destination, node and slot of the instruction, the current epoch, and violation type 1, each at its fixed offset in a 114-byte header; node and slot are the ones the proof was checked against.",
  ["inputs"], "every instruction, clock and proof", "The happy-path test compares one report; it cannot show that no input makes a field come from elsewhere.",
  [S+"processor.rs", S+"state.rs"], [("report construction", S+"processor.rs process_instruction"), ("write", S+"state.rs write_violation_report")])
p("C17", "The proof that was verified is stored in full behind the header",
  "The report account is resized to exactly header plus packed proof and its content after the header is the packed form (4-byte little-endian length then bytes, twice) of the two shreds that were verified, in order.",
  ["inputs"], "every pair of shreds of every length", "Shreds in the tests have the two usual sizes.",
  [S+"state.rs", S+"duplicate_block_proof.rs"], [("resize and write", S+"state.rs store_violation_report, write_violation_report"), ("packing", S+"duplicate_block_proof.rs pack_proof")])
p("C18", "Substituted system accounts are refused",
  "A report succeeds only if the third account is the instructions sysvar (else MissingInstructionsSysvar) and the fourth the system program (else MissingSystemProgramAccount), and the verification data is read from that third account. Fewer than four accounts refuse the report.",
  ["inputs"], "every account list", "No test passes a forged sysvar or system program account.",
  [S+"state.rs"], [("account checks", S+"state.rs SlashingAccounts::new")])
p("C19", "Only accounts owned by this program can be closed",
  "Closing succeeds only for a non-empty account owned by this program; any other account is refused with InvalidViolationReportAcccount before anything is read from or written to it.",
  ["inputs"], "every account passed as report", "No test closes a foreign or empty account.",
  [S+"processor.rs"], [("owner check", S+"processor.rs process_instruction")])
p("C20", "A report stays open for at least three epochs",
  "Closing succeeds only if the current epoch is at least the recorded epoch plus three (without wrap-around); exactly three epochs later is allowed and anything earlier is refused with CloseViolationReportTooSoon.",
  ["inputs", "histories"], "every recorded epoch and current epoch", "Tests try epochs 0 to 3 after creation at one epoch value.",
  [S+"state.rs"], [("age check", S+"state.rs close_violation_report")])
p("C21", "Closing pays the full balance to the recorded destination only",
  "Closing succeeds only if the second account is the destination recorded in the report (else InvalidDestinationAccount); afterwards the report holds zero lamports and the destination its previous balance plus the report's whole previous balance, and an overflow refuses the close.",
  ["inputs"], "every pair of accounts and balances", "Tests use one destination that starts without a balance.",
  [S+"state.rs"], [("destination check and transfer", S+"state.rs close_violation_report")])
p("C22", "A closed report account is emptied and handed back",
  "A successful close truncates the report account to zero bytes and assigns it to the system program, on every path.",
  ["inputs"], "every successful close", "The test observes the account being purged by the runtime for having no lamports, not its data or owner.",
  [S+"state.rs"], [("reset", S+"state.rs close_violation_report")])
p("C23", "A violation can never be reported twice, even after closing",
  "The shortest time after which a report can be closed (whole epochs since it was recorded) is strictly longer than the longest time after which its violation can still be reported (one epoch of slots), so that a closed report cannot be recreated for the same violation.",
  ["histories"], "every history of report, close and re-report", "No test re-reports after a close.",
  [S+"processor.rs", S+"state.rs"], [("statute of limitations", S+"processor.rs verify_proof_data"), ("close delay", S+"state.rs close_violation_report")])
p("C24", "Instruction data is decoded strictly",
  "An empty input or a report input of any length other than 1 + 304 bytes is refused with InvalidInstructionData, an unknown first byte with InvalidInstruction; 0 is close and 1 is report, and the report fields are offset, slot, node, reporter, destination, root, signature, root, signature at offsets 1, 9, 17, 49, 81, 113, 145, 209, 241.",
  ["inputs"], "every byte string", "Tests decode a few encoded examples.",
  [S+"instruction.rs"], [("decoding", S+"instruction.rs decode_instruction_type, decode_instruction_data")])
p("C25", "Instructions modify nothing but their own report and payout accounts",
  "A report instruction writes to no account other than the report account and never changes its lamports; a close writes to no account other than the report account and the destination. Nothing is written, resized, assigned or invoked before every check of the accounts, the timing and the proof has passed (what fails afterwards, such as an overflowing payout, is undone by the runtime).",
  ["inputs"], "every path through the program", "Tests look at the accounts they expect to change.",
  [S+"processor.rs", S+"state.rs"], [("the only writers", S+"state.rs store_violation_report, write_violation_report, close_violation_report")])
p("C26", "Proof buffers decode to exactly the two length-prefixed shreds",
  "Decoding a proof buffer yields the two byte strings announced by its little-endian 32-bit length prefixes, ignoring bytes after them, and refuses with ProofBufferTooSmall whenever a prefix or body does not fit; it never reads out of bounds. Packing any two shreds and decoding the result gives them back, and the announced packed length is the actual one.",
  ["inputs"], "every buffer and every pair of shreds (shorter than 4 GiB)", "Round trip is tested on two shred sizes; truncated or inconsistent prefixes are not tested.",
  [S+"duplicate_block_proof.rs"], [("unpack_proof / pack_proof / packed_len", S+"duplicate_block_proof.rs")])
p("C27", "The report builder and the program agree",
  "For every input, the report instruction built for clients addresses this program, passes proof account (read-only), derived report address (writable), instructions sysvar and system program in the order the program takes them, none as signer, and its data decodes to the given fields.",
  ["inputs"], "every builder input", "Tests use the builder with the program but cannot show agreement for all inputs.",
  [S+"instruction.rs", S+"state.rs"], [("builder", S+"instruction.rs duplicate_block_proof, encode_instruction"), ("consumer", S+"state.rs SlashingAccounts::new")])
p("C28", "The client's verification instruction covers the right bytes",
  "The transaction built for a report consists of prefund transfer, ed25519 verification, report, in this order, and the verification announces two signatures whose key, message (32 bytes) and signature offsets address the node key, first root and first signature, then node key, second root and second signature inside the report instruction at index 2.",
  ["inputs"], "every builder input", "The end-to-end test would not notice a verification that covers other, equal bytes.",
  [S+"instruction.rs", S+"sigverify.rs"], [("offset constants", S+"instruction.rs"), ("encoding", S+"sigverify.rs to_instruction")])
p("C29", "The client prefunds the report account sufficiently from the right payer",
  "The prefund transfer pays from the given funder, or the reporter if none is given, to the derived report address the rent-exempt minimum of the largest report: header plus two packet-sized (1232 byte) shreds with their length prefixes, which is at least what the program requires for any proof of packet-sized shreds.",
  ["inputs", "configurations"], "every funder choice, rent configuration and proof", "Tests use no funder and default rent.",
  [S+"instruction.rs", S+"state.rs", S+"duplicate_block_proof.rs"], [("transfer", S+"instruction.rs duplicate_block_proof_with_sigverify_and_prefund"), ("maximum size", S+"state.rs ViolationReport::size")])
p("C30", "The close builder and the program agree",
  "The close instruction built for clients addresses this program, passes report account and destination (both writable, neither signer) in the order the program takes them, and its data is the single byte 0.",
  ["inputs"], "every builder input", "One serialization test.", [S+"instruction.rs", S+"processor.rs"], [("builder", S+"instruction.rs close_violation_report")])
p("C31", "On-chain layouts are packed and stable",
  "The report header is 114 bytes with version, reporter, destination, epoch, node, slot and type at offsets 0, 1, 33, 65, 73, 105, 113, and the report instruction payload is 304 bytes with its nine fields in the documented order; neither contains padding or needs alignment.",
  ["inputs"], "every value of every field", "Tests write and read with the same definition, so a reordering goes unnoticed.",
  [S+"state.rs", S+"instruction.rs"], [("repr(C) plain-old-data types", S+"state.rs ViolationReport; "+S+"instruction.rs DuplicateBlockProofInstructionData")])
p("C32", "Violation type codes and names are consistent",
  "The duplicate-block type is code 1 and every other code reads as the invalid type, whose code is 0; encoding then decoding a type gives it back, and parsing a type's display name gives it back while other names are refused.",
  ["inputs"], "all 256 codes and all names", "Only code 1 occurs in tests.", [S+"state.rs"], [("conversions", S+"state.rs ProofType")])
p("C33", "No failure inside the program is swallowed",
  "Every failing step of a report or close (decoding, system calls, invocations, borrows, resizes, checks) makes the instruction fail; no path continues to success after a callee reported an error.",
  ["inputs", "fault_sequences"], "every failing call on every path", "Tests cannot make system calls, invocations or resizes fail.",
  [S+"processor.rs", S+"state.rs", S+"sigverify.rs", S+"duplicate_block_proof.rs"], [("error propagation", "all fallible calls")])
p("C34", "Parsing a proof never panics",
  "Decoding and judging a proof (buffer, shred headers, merkle root, conflict verdict) ends with acceptance or an error for every byte content and length, without panic, arithmetic overflow or out-of-bounds access.",
  ["inputs"], "every byte content and length of both shreds", "Random valid shreds never reach the arithmetic edge cases.",
  [S+"shred.rs", S+"duplicate_block_proof.rs"], [("checked accessors and arithmetic", S+"shred.rs")])
p("C35", "Verified records are never uninitialised or mixed up",
  "Each of the two verification results handed out was fully initialised from the record of the same position; no path returns results of which one was not written.",
  ["inputs"], "every verification instruction", "Undefined behaviour does not show in a passing test.",
  [S+"sigverify.rs"], [("MaybeUninit array", S+"sigverify.rs inspect_verifications")])
p("C36", "Every refusal carries its documented error",
  "When exactly one requirement of a report or close is violated the instruction fails with the error documented for that requirement, and error numbers are the stable positions of the documented errors.",
  ["inputs"], "every single violated requirement", "Tests check the codes of the failures they provoke.",
  [S+"error.rs", S+"state.rs", S+"processor.rs", S+"duplicate_block_proof.rs", S+"sigverify.rs", S+"shred.rs"], [("error returns", "all refusals"), ("error numbering", S+"error.rs")])
p("C37", "Every valid proof is accepted",
  "A report that meets all documented requirements succeeds (system calls permitting): no additional condition on accounts, amounts, slots, indices or payload bytes refuses it.",
  ["inputs"], "every report meeting the requirements", "Tests accept a few typical proofs; an extra refusal for unusual but valid values does not show.",
  [S+"processor.rs", S+"state.rs", S+"duplicate_block_proof.rs", S+"sigverify.rs", S+"shred.rs"], [("acceptance path", S+"processor.rs process_instruction")])
p("C38", "Every eligible report can be closed",
  "A close that meets all documented requirements (program-owned report at least three epochs old, recorded destination) succeeds, whoever sends it and whatever the report contains otherwise.",
  ["inputs"], "every eligible report", "Tests close one report.", [S+"processor.rs", S+"state.rs"], [("close path", S+"state.rs close_violation_report")])
# ---------------------------------------------------------------- client
p("C40", "A dry run sends no transaction",
  "With dry run enabled no command ever submits a transaction: every transaction the client builds passes through one place that simulates instead of sending, and nothing else submits.",
  ["inputs", "configurations"], "every command and option", "The client has no tests.",
  [C+"main.rs"], [("single submission point", C+"main.rs process_transaction")])
p("C41", "Every proof account the client creates is closed again",
  "In each scan the client tries to close, returning the rent to the fee payer, every proof account it started to create in that scan, whether or not its report succeeded and whether or not closing another one failed, before it finishes or scans again (unless it is aborted).",
  ["inputs", "fault_sequences"], "every ledger content and every failing remote call", "The client has no tests.",
  [C+"main.rs"], [("list of closable accounts", C+"main.rs command_attach, report_duplicate_block_violation")])
p("C42", "The client closes only eligible and selected reports",
  "The close command submits a close for a report only if at least three epochs have passed since it was recorded and it matches every given filter (report account, node, reporter, destination); a report that is old enough and matches is not skipped.",
  ["inputs"], "every set of reports and filters", "The client has no tests.",
  [C+"main.rs"], [("filter and age check", C+"main.rs command_close")])
p("C43", "The client closes each report to its own recorded destination",
  "Each close the client submits names the listed report account and the destination stored in that very report, and the summary shows that report's fields and balance.",
  ["inputs"], "every report", "The client has no tests.", [C+"main.rs"], [("close instruction", C+"main.rs command_close")])
p("C44", "The display command shows exactly the matching reports",
  "The display command lists every report that matches all given filters (epoch, node, reporter) and no other, ordered by slot, each with its own fields and the proof bytes stored behind its header.",
  ["inputs"], "every set of reports and filters", "The client has no tests.", [C+"main.rs", C+"output.rs"], [("filter, conversion and sort", C+"main.rs command_display; "+C+"output.rs from_report")])
p("C45", "The client writes the whole proof before reporting",
  "The proof account is created rent exempt, with room for the record header and the largest proof and the fee payer as authority; the ledger's proof is written in consecutive chunks that cover it completely at the right offsets, and the report is only submitted after all writes succeeded, pointing at the record's data start.",
  ["inputs"], "every proof length", "The client has no tests.", [C+"main.rs"], [("chunked write", C+"main.rs initialize_and_write_proof")])
p("C46", "The client scans every duplicate slot of the requested range once",
  "Attach processes each duplicate slot the ledger yields from the start slot (default 0) up to and including the end slot (default unbounded), continues after a failed report, and in continuous mode resumes after the last slot processed.",
  ["inputs", "histories"], "every ledger content and range", "The client has no tests.", [C+"main.rs"], [("scan loop", C+"main.rs command_attach")])
p("C47", "The client does not resubmit a recorded violation",
  "Attach skips a slot exactly when the report address of its leader and slot already holds a non-empty account owned by the slashing program with a nonzero version, before creating any account.",
  ["inputs"], "every on-chain state", "The client has no tests.", [C+"main.rs"], [("existence check", C+"main.rs report_duplicate_block_violation")])
p("C48", "The client reports the right node, slot, parties and shreds",
  "The report the client submits names the slot's leader, the scanned slot, the chosen reporter and destination (defaulting to the default signer), and for each shred of the ledger's proof its own merkle root and signature, in the same order in which the shreds were written; the fee payer funds it.",
  ["inputs"], "every ledger proof and option combination", "The client has no tests.", [C+"main.rs"], [("instruction data", C+"main.rs report_duplicate_block_violation"), ("defaults", C+"main.rs command_attach")])
p("C49", "A foreign account cannot break listing or closing",
  "Listing or closing reports works whatever accounts exist under the slashing program's ownership; in particular an account too small to hold a report does not abort the command.",
  ["inputs"], "every set of accounts owned by the program (anyone can create some)", "The client has no tests.", [C+"main.rs"], [("decoding of listed accounts", C+"main.rs command_close, command_display")])
p("C50", "Client errors are reported, not dropped",
  "A failed remote call makes the command fail, or, while scanning or closing proof accounts, is handed to the error display and the scan goes on; a report whose submission failed is not counted as reported.",
  ["inputs", "fault_sequences"], "every failing remote call", "The client has no tests.", [C+"main.rs"], [("error propagation", C+"main.rs")])
p("C51", "The client works against the configured cluster with the configured keys",
  "Every command talks to the cluster given by --url, else to the one of the given configuration file, else to the one of the default configuration file, and acts only on state that is at least confirmed; every transaction is paid by the given fee payer if it can be loaded, otherwise by the key of the same configuration file.",
  ["inputs", "configurations"], "every combination of options and configuration files", "The client has no tests.",
  [C+"config.rs", C+"main.rs"], [("configuration", C+"config.rs Config::new"), ("payer", C+"config.rs fee_payer")])
p("C52", "JSON output is a single document",
  "With a JSON output format close and display print the result once, in the chosen format, and nothing else on standard output; attach prints nothing while it scans.",
  ["inputs", "configurations"], "every output format, report and option", "The client has no tests.",
  [C+"main.rs", C+"config.rs"], [("guarded printing", C+"config.rs println_display"), ("result", C+"main.rs main")])
p("C53", "The displayed text shows each report's own values",
  "The text of a listed or closed report shows, behind the label of each field, that report's own value, for every entry of the list, and the totals (open reports, closed reports, reports too soon to close, lamports recovered) are the number of entries, the number passed in and the sum of the balances.",
  ["inputs"], "every list of reports", "The client has no tests; a swapped field or a wrong total needs particular values to show.",
  [C+"output.rs"], [("text", C+"output.rs Display and VerboseDisplay implementations")])
p("C54", "A stored report cannot break the display",
  "Showing stored reports, verbosely or not, does not abort whatever shreds and header values the reports hold (a report the program records has a known violation type and two complete length-prefixed shreds), also when the ledger's own parser refuses the shreds.",
  ["inputs"], "every report the program can record", "The client has no tests; the shreds that trigger it have to be crafted.",
  [C+"output.rs"], [("display of a proof", C+"output.rs display_duplicate_block_proof")])
p("C55", "What the client announces about a report is what happened",
  "While attach scans, every message that names a slot, a leader or a proof account names the one being handled; a report that failed is announced with its slot and with a command that, as printed, is accepted and retries exactly that slot; the number of violations announced as reported is the number of reports submitted.",
  ["inputs", "fault_sequences"], "every duplicate slot, answer and failure", "The client has no tests.",
  [C+"main.rs"], [("messages", C+"main.rs command_attach")])
p("C56", "The client only watches the given ledger",
  "attach opens the ledger at the path given, for reading beside the running validator (secondary access), never changes it, looks at its current state in each scan of a continuous run, and pauses between two scans for the given interval or else four hours.",
  ["inputs", "histories"], "every option combination and every sequence of scans", "The client has no tests.",
  [C+"main.rs"], [("opening the ledger", C+"main.rs command_attach, Blockstore::open_with_options"), ("scan loop", C+"main.rs command_attach")])
# ---------------------------------------------------------------- declared, not claimed
p("C60", "Only genuine equivocation is provable",
  "No honest leader can be reported: two shreds accepted by the program cannot both have been produced by a leader that signed a single version of each FEC set.",
  ["inputs"], "every behaviour of an honest leader and every forger", "Quantifies over adversaries against SHA-256 and ed25519.",
  [S+"duplicate_block_proof.rs", S+"sigverify.rs", S+"shred.rs"], [("hashes and signatures", S+"shred.rs; ed25519 precompile")])
p("C61", "The shred format agrees with the validator's",
  "Every merkle shred a validator produces is parsed to the same fields and merkle root as the validator itself computes.",
  ["inputs"], "every shred a validator can produce", "Parity is sampled on random shreds.", [S+"shred.rs"], [("shred parser", S+"shred.rs")])
p("C62", "Reporting fits the transaction and compute limits",
  "Every valid report executes within the transaction size, heap and compute limits of the runtime.",
  ["inputs", "configurations"], "every valid proof and runtime configuration", "Tests run natively, without metering.", [S+"processor.rs"], [("bounded work", S+"shred.rs merkle_root")])
p("C63", "Of racing reporters exactly one is credited",
  "When several reporters submit the same violation concurrently, exactly one report is recorded and the others are refused.",
  ["schedules"], "every interleaving of transactions", "Needs the runtime's account locking.", [S+"state.rs"], [("existence check", S+"state.rs violation_account_exists")])
p("C64", "Every duplicate slot is eventually reported",
  "In continuous mode the client eventually reports every duplicate slot its ledger records, as long as the network is reachable.",
  ["histories", "fault_sequences"], "every ledger growth and network history", "Liveness over an external service.", [C+"main.rs"], [("scan loop", C+"main.rs command_attach")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
