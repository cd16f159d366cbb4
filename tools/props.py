"""The properties: one P(...) per property.  tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note, na=na, observe=observe))


MIR = "abstract interpretation of the compiler's MIR"
TRUST = (" Trusts: rustc's MIR for the analysed feature sets, the engine's models of core/alloc/bitcoin functions "
         "(engine/models.py); anything it cannot interpret is reported as undecided, never as a violation.")
MAPS = ["src/v2/map/global.rs", "src/v2/map/input.rs", "src/v2/map/output.rs", "src/v0/bitcoin/map/global.rs",
        "src/v0/bitcoin/map/input.rs", "src/v0/bitcoin/map/output.rs"]

P("C01", "Serialization writes every field of every map, under its BIP key type",
  "When a PSBT (version 0 or 2) is serialized, every piece of information held in its global, input and output maps - "
  "including proprietary and unknown records - is written as a record with the key type the BIPs assign to it. A record "
  "is written exactly when the information is present (one record per entry for keyed fields), its key and value come "
  "from that piece of information only, and unknown records are written back verbatim.",
  ["inputs"], "for every PSBT value, i.e. every combination of present/absent fields and every field content",
  "Tests round-trip a few fixed vectors; a field that no vector carries, or a combination of fields none has, is "
  "never exercised, and a field dropped on both encode and decode round-trips silently.",
  MAPS + ["src/consts.rs", "src/macros.rs"],
  [("record list of each map (get_pairs)", "src/v2/map/*.rs, src/v0/bitcoin/map/*.rs"),
   ("v2_impl_psbt_get_pair!/impl_psbt_get_pair!", "src/macros.rs, src/v0/bitcoin/macros.rs")],
  MIR + ": provenance and presence of every emitted record",
  "All paths of the six record-list functions, all field presence combinations, all feature sets; says nothing about "
  "value encodings (C35)." + TRUST)

P("C02", "Parsing puts every known record in its own field and keeps unknown ones",
  "When a PSBT map is parsed, a record of every key type assigned by the BIPs to that map is accepted and stored in "
  "the field of that key type, built from that record's value (and key data for keyed fields) and changing nothing "
  "else. A record of any other key type is kept verbatim as an unknown record, except that records reserved for the other PSBT "
  "version are rejected.",
  ["inputs"], "for every byte string, i.e. every sequence of records in any order",
  "Vectors contain a few record types each; nothing exercises every type, a type in an unusual position, or the "
  "retention of arbitrary unknown types.",
  MAPS + ["src/macros.rs", "src/consts.rs"],
  [("record loop of each map decoder", "src/v2/map/*.rs (decode, insert_pair), src/v0/bitcoin/map/*.rs"),
   ("v2_impl_psbt_insert_pair!/impl_psbt_insert_pair!", "src/macros.rs, src/v0/bitcoin/macros.rs")],
  MIR + ": one arbitrary iteration of each record loop from an arbitrary state, partitioned by key type",
  "All 256 key types and all paths of the six record loops." + TRUST)

P("C03", "A PSBT map with two records under the same key is rejected",
  "Parsing a PSBT in which any map holds two records with the same key fails, for every key type including the "
  "mandatory, counted, proprietary and unknown ones. No record silently overwrites an earlier one.",
  ["inputs"], "for every byte string, i.e. for every pair of records at any distance in any map",
  "The invalid vectors duplicate a handful of key types with non-degenerate values; each of the 60+ key types has its own code "
  "path and its own notion of 'seen'.",
  MAPS + ["src/macros.rs"],
  [("duplicate checks in the record loops", "src/macros.rs, src/v2/map/*.rs, src/v0/bitcoin/map/*.rs")],
  MIR + ": typestate of each accumulator (empty before store) on every storing path",
  "Every storing path of every key type, for every prior state of the loop." + TRUST)

P("C04", "Records with stray key data or a wrong-sized value are rejected",
  "A record whose key type carries no key data is rejected when key data is present, in every map of both versions. A record "
  "with a fixed-size value (versions, times, flags, proofs, silent payment data) is accepted only with exactly that size, and otherwise the "
  "parser consumes the entire value instead of ignoring trailing bytes.",
  ["inputs"], "for every record, i.e. every key length and every value length",
  "The vectors attach key data to a few types only; value lengths off by one are not tested for most types.",
  MAPS + ["src/macros.rs", "src/serialize.rs", "src/v0/bitcoin/serialize.rs"],
  [("key-data and length checks in the record loops", "src/macros.rs, src/v2/map/*.rs, src/v0/bitcoin/map/*.rs")],
  MIR + ": length facts established on every accepting path",
  "Every accepting path; the two v2 count records are exempt from whole-value consumption because BIP-375's own valid "
  "vectors pad them." + TRUST)

P("C05", "A PSBT lacking a mandatory record or with another version is rejected",
  "Parsing succeeds only if every record the PSBT version makes mandatory was present (version, transaction version and counts in the global map, previous "
  "txid and index per input, amount and script per output for v2; the unsigned transaction for v0) and the version is "
  "the supported one. A valid value is never mistaken for a missing record, and an optional record that was absent is "
  "reported as absent, one that was present is returned unchanged.",
  ["inputs"], "for every byte string, i.e. every subset of records and all record values, including zero values",
  "Tests remove a few mandatory records from one vector; in-band placeholder values (zero amount, zero txid) never occur in them.",
  MAPS, [("final checks of the map decoders", "src/v2/map/*.rs (decode), src/v0/bitcoin/map/global.rs (decode_global)")],
  MIR + ": facts established on every successful return of the decoders",
  "Every successful return, any loop history." + TRUST)

P("C06", "A preimage is accepted only under its own hash",
  "Parsing an input map stores a hash preimage record only if hashing the value with the algorithm of the key type gives exactly the hash "
  "in the key; any other preimage record makes parsing fail.",
  ["inputs"], "for every record of the four preimage types, in v0 and v2",
  "Tests contain no mismatching preimage records for any of the four algorithms.",
  ["src/v2/map/input.rs", "src/v0/bitcoin/map/input.rs"],
  [("hash comparison before insertion", "psbt_insert_hash_pair / v2 insert_pair in src/v2/map/input.rs, src/v0/bitcoin/map/input.rs")],
  MIR + ": dominance of the hash comparison over every store",
  "Every path that stores a preimage." + TRUST)

P("C07", "A version 0 PSBT never holds a transaction with signatures",
  "A version 0 PSBT is created from a transaction, or parsed from bytes, only if every input of the transaction has an empty "
  "script_sig and an empty witness; a transaction is refused for a signature only if one of them is not empty. The new PSBT holds "
  "exactly that transaction, with one input map per transaction input and one output map per transaction output, all empty "
  "when it is created from a transaction.",
  ["inputs"], "for every transaction with any number of inputs, and every byte string",
  "Tests try one signed transaction with one input; a check that misses later inputs or witnesses goes unnoticed.",
  ["src/v0/bitcoin/mod.rs", "src/v0/bitcoin/serialize.rs"],
  [("Psbt::from_unsigned_tx, unsigned_tx_checks", "src/v0/bitcoin/mod.rs"), ("Psbt::deserialize", "src/v0/bitcoin/serialize.rs")],
  MIR + ": loop summaries establish the per-input checks on every successful path",
  "All paths, any number of inputs." + TRUST)

P("C23", "The lock time of a v2 transaction is the one BIP-370 prescribes",
  "Determining the lock time of a v2 PSBT fails exactly when one input requires a time-based and another a height-based lock "
  "time. Otherwise the result is the greatest of the required lock times of one kind - height-based if every input "
  "with a requirement allows height, time-based otherwise - and, if no input has a requirement, the fallback lock "
  "time (zero when absent). It never panics.",
  ["inputs"], "for every number of inputs and every combination of present and absent time and height requirements",
  "Tests cover a couple of single-input cases; the rule quantifies over all multisets of inputs and the wrong kind or "
  "minimum instead of maximum is only visible for mixed inputs.",
  ["src/v2/mod.rs", "src/v2/map/input.rs"],
  [("determine_lock_time and the requires_*/is_satisfied_* predicates", "src/v2/mod.rs, src/v2/map/input.rs")],
  MIR + ": result of every path compared with the BIP-370 table for every class of inputs",
  "All sets of input kinds (neither/time/height/both) a list can contain, for lists of any length; the maximum is "
  "recognised from iterator/fold/loop forms." + TRUST)

P("C19", "The fee is the exact sum of all funding values minus all outputs",
  "The fee of a PSBT (either version) is the total value of the outputs its inputs spend - the witness UTXO if present, otherwise the "
  "non-witness UTXO's output at the spent index - minus the total value of its outputs. An input without funding information, an "
  "overflow of either total and a negative result are errors; the computation never wraps, saturates or panics.",
  ["inputs"], "for every number of inputs and outputs and all amounts, including totals beyond 64 bits",
  "Tests compute the fee of two or three fixed PSBTs; an input skipped, a wrapped total or the wrong funding source needs particular values.",
  ["src/v2/mod.rs", "src/v0/bitcoin/mod.rs"],
  [("Psbt::fee and iter_funding_utxos", "src/v2/mod.rs, src/v0/bitcoin/mod.rs")],
  MIR + ": accumulator summary of the fee loops, overflow guards as path facts",
  "All paths, any list lengths, both funding sources. v0's assertion that maps and transaction inputs have equal length is a documented precondition." + TRUST)

P("C20", "Extraction yields exactly the signed transaction within the fee rate limit",
  "Extracting from a PSBT (either version) yields a transaction whose version, lock time, inputs (outpoint, sequence, final script sig and witness, "
  "in order) and outputs come from the PSBT and nothing is left out. A v2 Extractor exists, and extraction succeeds, only if every input is finalized; the v0 miniscript extract succeeds "
  "only if every input has a final script sig or witness. Every other entry point except the explicitly unchecked one refuses, and does so only then, when the fee rate of that transaction exceeds the caller's limit or the "
  "default of 25 000 sat/vB, or when the fee cannot be computed.",
  ["inputs"], "for every PSBT, any number of inputs and outputs, every limit",
  "Tests extract a handful of single-input transactions with the default limit; boundary rates, mixed finalized and unfinalized inputs and "
  "absent fields in later inputs do not occur.",
  ["src/v2/extract.rs", "src/v2/map/input.rs", "src/v0/bitcoin/mod.rs"],
  [("Extractor::new, internal_extract_tx*, Input::signed_tx_in", "src/v2/extract.rs, src/v2/map/input.rs"),
   ("internal_extract_tx*", "src/v0/bitcoin/mod.rs")],
  MIR + ": provenance of every component of the returned transaction and of the rate compared with the limit",
  "All eight public entry points, all paths, presence hypotheses for the optional fields. bitcoin's weight() and FeeRate are trusted." + TRUST)

P("C21", "The unsigned transaction and the PSBT id follow BIP-370",
  "The unsigned transaction of a v2 PSBT has the PSBT's transaction version, the determined lock time, one input per PSBT input in order (its outpoint, its "
  "sequence or the final sequence number, empty script sig and witness) and one output per PSBT output in order (its amount and script). The unique id is the "
  "txid of that transaction with every sequence set to zero, so it does not depend on sequence, signatures or finalization data.",
  ["inputs"], "for every v2 PSBT with any number of inputs and outputs",
  "Tests check the id of two vectors with one input; leakage of sequence or signature data or a wrong order needs several inputs with differing records.",
  ["src/v2/mod.rs", "src/v2/map/input.rs", "src/v2/map/output.rs", "src/v2/extract.rs", "src/v2/miniscript/finalize.rs"],
  [("unsigned_tx, id on Psbt, Updater, Signer, Finalizer, Extractor", "src/v2/mod.rs, src/v2/extract.rs"),
   ("Input::unsigned_tx_in, Output::tx_out", "src/v2/map/*.rs")],
  MIR + ": provenance of every component of the constructed transaction",
  "All producers, all paths, both hypotheses on the sequence record." + TRUST)

P("C15", "Every signature is made by the provider's key over this input and filed under it",
  "Signing (either version) adds to an input only signatures made with a private key that the key provider returned for one of that input's own key "
  "origins, over that input's own sighash in the PSBT's own unsigned transaction, labelled with the sighash type that was hashed, and filed under that key's public key "
  "(for taproot: the origin's x-only key and the leaf that was hashed; a key-path signature only for the internal key, with the key tweaked by the input's merkle root). "
  "Every ECDSA key the provider can supply - by derivation or by public key - is used, every taproot key it can supply signs each of its leaves it has not signed yet (and the key path when it is the "
  "internal key without leaves and there is no key path signature), every input is visited, failures are reported per input, and nothing but "
  "signatures and modifiable flags changes.",
  ["inputs", "configurations"], "for every PSBT, any number of inputs and key origins, every key provider and every pattern of keys it can and cannot supply",
  "Tests sign a few fixed PSBTs where every key is known; partial key knowledge, several keys per input and taproot leaf combinations are not covered.",
  ["src/v2/mod.rs", "src/v0/bitcoin/mod.rs"],
  [("Psbt::sign, bip32_sign_ecdsa, Signer::sign", "src/v2/mod.rs"), ("Psbt::sign, bip32_sign_ecdsa, bip32_sign_schnorr", "src/v0/bitcoin/mod.rs")],
  MIR + ": provenance of every stored signature over one arbitrary iteration of each loop, for all answers of the key provider",
  "All paths of the three per-input signers and both signing loops. secp256k1 and bitcoin's sighash code are trusted; completeness is not claimed for taproot origins." + TRUST)

P("C16", "The message signed is the consensus sighash for the output type being spent",
  "For an ECDSA input (either version) the message to sign is the legacy hash of the script pubkey (bare), the legacy hash of the redeem script (P2SH), the segwit v0 hash of the "
  "script pubkey or redeem script (P2WPKH, nested P2WPKH) or the segwit v0 hash of the witness script (P2WSH, nested P2WSH), with the value of the output actually spent and the input's "
  "sighash type (ALL when absent), for that input's index. Missing scripts, taproot and unknown witness outputs give an error. For a v0 taproot input the hash is the key or script path "
  "hash with that leaf, over this input's funding output for ANYONECANPAY types and over all inputs' funding outputs in order otherwise.",
  ["inputs", "configurations"], "for every PSBT, input index, script kind, sighash type and combination of present records",
  "Tests sign some output types with default sighash types; a wrong script code or amount for a rarely used combination produces signatures that only fail on chain.",
  ["src/v2/mod.rs", "src/v0/bitcoin/mod.rs", "src/v2/map/input.rs", "src/v0/bitcoin/map/input.rs", "src/sighash_type.rs"],
  [("sighash_ecdsa, output_type, signing_algorithm", "src/v2/mod.rs, src/v0/bitcoin/mod.rs"), ("sighash_taproot", "src/v0/bitcoin/mod.rs")],
  MIR + ": result terms under every combination of script class and present records",
  "9 script classes x redeem/witness script x sighash type x funding record kind, both versions; 7 taproot types x 2 paths. bitcoin's script predicates and SighashCache are trusted." + TRUST)

P("C17", "Signing updates the transaction-modifiable flags as BIP-370 demands",
  "After a v2 Signer adds a signature, the inputs-modifiable flag is cleared unless the signature uses ANYONECANPAY, the outputs-modifiable flag is cleared unless it uses NONE, "
  "the has-SIGHASH_SINGLE flag is set if it uses SINGLE, and every other bit keeps its value. The flags do not change when nothing was signed. The explicit flag update does the same for a given type.",
  ["inputs", "histories"], "for every PSBT, all 256 old flag values, all sighash types and any number of signatures",
  "Tests sign with ALL; the other five types and flag combinations are not covered.",
  ["src/v2/mod.rs", "src/v2/map/global.rs"],
  [("clear_tx_modifiable, bip32_sign_ecdsa, ecdsa_clear_tx_modifiable", "src/v2/mod.rs"), ("flag setters", "src/v2/map/global.rs")],
  MIR + ": resulting flag term per sighash type compared with the rule for all 256 old values",
  "All paths of the signer of one input and of the explicit update." + TRUST)

P("C18", "A Finalizer exists only if every partial signature has the requested sighash",
  "A v2 Finalizer can only be created from a PSBT in which, for every input, every partial signature carries the sighash type the input asks for (ALL when the input asks for none), "
  "and every input's funding output is known. The v0 functions finalize and finalize_mall and the v0 miniscript extract likewise succeed only if every partial signature "
  "carries the type its input asks for. A signature of the requested type is never refused for its type, and the Finalizer holds the PSBT it was given unchanged.",
  ["inputs"], "for every PSBT, any number of inputs and partial signatures, every pair of requested and used sighash type",
  "Tests finalize PSBTs whose signatures all use ALL; a wrong flag in a later input or in the second of several signatures is not tried.",
  ["src/v2/mod.rs", "src/v2/miniscript/finalize.rs", "src/sighash_type.rs"],
  [("Finalizer::new", "src/v2/miniscript/finalize.rs"), ("check_partial_sigs_sighash_type", "src/v2/mod.rs")],
  MIR + ": facts after one arbitrary iteration of each completed loop, once per pair of sighash types",
  "8 requested x 6 used types, all paths, any number of inputs and signatures. EcdsaSighashType::from_standard is trusted." + TRUST)

P("C22", "Finalization needs interpreter-accepted scripts and keeps the right records",
  "Finalizing (v2 Finalizer::finalize; v0 finalize, finalize_mut, finalize_inp and their malleable variants) succeeds only if, for every finalized input, the script interpreter accepted exactly the "
  "final script sig and witness that are stored, with that input's funding output's script, its sequence, the transaction's lock time and signatures checked against the unsigned transaction and all "
  "inputs' funding outputs. A finalized input keeps its UTXOs, proprietary and unknown records (v2 also its outpoint, sequence and required lock times) and loses every other record; nothing else in the PSBT "
  "changes, and (v0) a failing input is left untouched. Only the malleable variants accept malleable satisfactions. The interpreter check and the v0 miniscript extract hold every input to the same standard.",
  ["inputs", "configurations"], "for every PSBT, any number of inputs, every script type and both kinds of funding record",
  "Tests finalize a few complete PSBTs; a check skipped for some input, a wrong sequence, lock time or index, or a leaked record needs unusual PSBTs to notice.",
  ["src/v2/miniscript/finalize.rs", "src/v2/miniscript/mod.rs", "src/v2/map/input.rs", "src/v0/miniscript/finalizer.rs", "src/v0/miniscript/mod.rs"],
  [("Finalizer::finalize, final_script_sig_and_witness, interpreter_check", "src/v2/miniscript/*.rs"), ("Input::finalize", "src/v2/map/input.rs"),
   ("PsbtExt::finalize*, extract, interpreter_check", "src/v0/miniscript/*.rs")],
  MIR + ": provenance of the interpreter's arguments and of every field of the finalized inputs, per arbitrary loop iteration",
  "All public finalization entry points of both versions, all paths, both funding records, taproot or not. rust-miniscript's interpreter and satisfier are trusted." + TRUST)

ROLEF = ["src/v2/mod.rs", "src/v2/extract.rs", "src/v2/miniscript/finalize.rs", "src/v2/map/global.rs"]
P("C10", "Parsing untrusted bytes or text never panics or allocates unboundedly",
  "Every function that turns untrusted input into a value - PSBT, map, record, key and field value decoders of both versions, FromStr "
  "and TryFrom conversions - returns a value or an error for every input: no unwrap, index, slice, arithmetic overflow or explicit "
  "panic can be reached, and no allocation is sized by a count or length read from the input without a constant bound.",
  ["inputs"], "for every byte string and every string",
  "Tests feed valid vectors and a few invalid ones; a panic needs a specific malformed length, and an over-allocation a specific count.",
  MAPS + ["src/raw.rs", "src/serialize.rs", "src/v0/bitcoin/serialize.rs", "src/v0/bitcoin/mod.rs", "src/v2/mod.rs", "src/version.rs", "src/sighash_type.rs"],
  [("decoders and their helpers", "src/v2/map/*.rs, src/v0/bitcoin/map/*.rs, src/serialize.rs, src/raw.rs")],
  MIR + ": every reachable panic, failing assertion and allocation size judged on the facts of its path",
  "All decoding entry points found by type; length conditions are decided over boundary values (0..139, powers of two and the allocation limit). External "
  "parsers (bitcoin, secp256k1) are assumed not to panic themselves." + TRUST)

P("C11", "Formatting a value or an error never panics",
  "Display, Debug, hex formatting, error source, From and AsRef conversions of every type of the crate return for every value: no "
  "unwrap, index, slice, arithmetic overflow or explicit panic can be reached.",
  ["inputs"], "for every value of every public type, any formatter options",
  "Tests format almost none of the error variants.",
  ["src/error.rs", "src/v2/error.rs", "src/v2/mod.rs", "src/v0/bitcoin/error.rs", "src/v2/map", "src/raw.rs", "src/sighash_type.rs"],
  [("impl Display/Debug/Error/From", "src/**/*.rs")],
  MIR + ": every reachable panic and failing assertion judged on the facts of its path",
  "All formatting and conversion impls of the crate; external formatting is assumed not to panic." + TRUST)

P("C12", "Roles exist only for PSBTs whose lock time can be determined",
  "An Updater, Signer, Finalizer or Extractor for a version 2 PSBT is only obtained (from any constructor function, "
  "conversion or from a Constructor) when the lock time requirements of its inputs can be reconciled; otherwise an "
  "error is returned. The functions of those roles do not change the inputs' lock time requirements, so the lock time "
  "stays determinable. (Deserializing a role with serde is exempt.)",
  ["inputs", "histories"], "for every PSBT, i.e. every number of inputs and every combination of required times and heights, and every "
  "sequence of role functions",
  "The role guards are what later `expect`s rely on; tests build roles from PSBTs with at most a few inputs and "
  "mostly without lock times, so a guard skipped on one path shows nothing.",
  ROLEF, [("determine_lock_time() guard of each role", "src/v2/mod.rs, src/v2/extract.rs, src/v2/miniscript/finalize.rs")],
  MIR + ": a successful guard must dominate every value of a role type (typestate)",
  "All paths of every exported v2 function yielding a role." + TRUST)

P("C13", "Inputs and outputs are added only where the PSBT is flagged modifiable",
  "A Constructor that can add inputs (outputs) is only obtained for a version 2 PSBT whose tx-modifiable flags say that "
  "inputs (outputs) are modifiable - otherwise an error is returned - or from a Creator, which sets exactly the flags "
  "of that Constructor. no_more_inputs, no_more_outputs and updater clear exactly the respective flags, "
  "and no other non-signing function changes flags or the number of inputs or outputs.",
  ["inputs", "histories"], "for every PSBT with all 256 flag values, and every sequence of role functions",
  "Tests follow the default flow; refusing a PSBT with only some of the flags, and leaving unrelated flag bits alone, is "
  "not exercised.",
  ROLEF, [("Constructor<T>::new gates", "src/v2/mod.rs"), ("flag setters and predicates", "src/v2/map/global.rs")],
  MIR + ": flags of every result evaluated over all 256 old values, typestate of Constructor<T>",
  "All paths of every exported v2 function, all 256 flag values; Constructor::input after no_more_inputs is not "
  "prevented by the API and not claimed." + TRUST)

P("C14", "The input and output counts always match the lists",
  "In every version 2 PSBT produced by this library (created, constructed, parsed, combined, updated, signed or "
  "finalized) the global input and output counts equal the number of inputs and outputs, provided the PSBTs it was produced "
  "from satisfied this. Adding an input or output adds the given one and keeps the others.",
  ["inputs", "histories"], "for every sequence of role functions on every PSBT, and every byte string parsed",
  "Tests build PSBTs with one or two inputs and rarely look at the counts, yet serialization writes the counts and "
  "index checks rely on them.",
  ROLEF, [("Constructor::input/output, Psbt::deserialize, combine_with", "src/v2/mod.rs"), ("Global::combine", "src/v2/map/global.rs")],
  MIR + ": relational invariant between list length and count, inductive over the API functions",
  "All paths of every exported v2 function yielding a PSBT; lengths as linear terms. PSBTs edited through the public "
  "fields are the caller's." + TRUST)

COMBF = ["src/v2/mod.rs", "src/v2/map/global.rs", "src/v2/map/input.rs", "src/v2/map/output.rs", "src/v0/bitcoin/mod.rs",
         "src/v0/bitcoin/map/input.rs", "src/v0/bitcoin/map/output.rs"]
P("C08", "Combining PSBTs of different transactions is refused",
  "Combining succeeds only for PSBTs of the same transaction: for version 2 the same PSBT version and transaction "
  "version, the same number of inputs and of outputs, and at each position the same outpoint spent, respectively the same amount "
  "and script; for version 0 the same unsigned transaction. Otherwise an error is returned; no error from one of the maps "
  "is dropped.",
  ["inputs"], "for every pair of PSBTs, any number of inputs and outputs, differing in any of these at any position",
  "Tests combine PSBTs that match, or differ in one or two ways; a check weakened for some inputs still passes and "
  "silently merges signatures of one transaction into another.",
  COMBF, [("combine/combine_with", "src/v2/mod.rs, src/v0/bitcoin/mod.rs"), ("Global/Input/Output::combine", "src/v2/map/*.rs")],
  MIR + ": equality facts on every successful path, universally over all positions",
  "All paths of the combine functions for arbitrary PSBTs of any size." + TRUST)

P("C09", "Combining keeps every field of both PSBTs",
  "After combining two PSBTs successfully, every optional field that either had is present with the value of one that "
  "had it, every keyed field holds the entries of both (a conflict may be resolved either way), unknown and "
  "proprietary records included, and every input and output of the other PSBT has been combined into its counterpart. Not covered: the "
  "tx-modifiable flags, and a non-witness UTXO replaced by the witness UTXO of the other PSBT.",
  ["inputs"], "for every pair of PSBTs and every combination of fields present on either side",
  "About seventy fields with four presence combinations each; tests combine a few vectors that carry a handful of them.",
  COMBF + ["src/macros.rs", "src/v0/bitcoin/macros.rs"],
  [("v2_combine_option!/v2_combine_map!/combine!", "src/macros.rs, src/v0/bitcoin/macros.rs"), ("combine functions", "src/v2/map/*.rs, src/v0/bitcoin/map/*.rs")],
  MIR + ": provenance of every field of the result under each presence hypothesis",
  "All fields, all presence combinations, all paths, any number of inputs and outputs." + TRUST)

P("C24", "Key lookup returns exactly the private key that was asked for",
  "Asked for a fingerprint and path, an extended private key (or a set of them) returns the key derived along the whole path from a "
  "key with that fingerprint, no key if none has it, and the derivation error if derivation fails. Asked for a public key, a key map "
  "returns the private key filed under exactly that public key, or none. Requests of the other kind are refused as not supported.",
  ["inputs"], "for every key, set or map and every request, both versions",
  "Tests look up one key in one-element collections.",
  ["src/v2/mod.rs", "src/v0/bitcoin/mod.rs"],
  [("impl GetKey for Xpriv, sets and maps", "src/v2/mod.rs, src/v0/bitcoin/mod.rs")],
  MIR + ": decision table over all paths; loop summaries for the sets",
  "All paths of the ten implementations, any collection size; derivation itself is bitcoin's." + TRUST)

P("C25", "Silent payment fields are accepted only in the combinations and sizes of BIP-375",
  "With the feature silent-payments, decoding refuses a global map or an input that has ECDH shares but no DLEQ proofs or proofs but no shares, an "
  "output with a label but no silent payment info, and an output with neither script pubkey nor info; all other combinations of these "
  "fields are accepted. Scan keys and shares are taken only with 33 bytes, proofs with 64, info with 66 and labels with 4, the last two without key data.",
  ["inputs"], "for every serialized PSBT of version 2",
  "The BIP-375 test vectors cover single fields; combinations over all three maps and off-by-some lengths are not sampled.",
  ["src/v2/map/global.rs", "src/v2/map/input.rs", "src/v2/map/output.rs", "src/macros.rs"],
  [("decode, insert_pair", "src/v2/map"), ("v2_impl_psbt_insert_sp_pair", "src/macros.rs")],
  MIR + ": decision table over the presence of the fields at every successful return, and over the lengths of one arbitrary record",
  "All records, all combinations; whether a key or proof is valid is left to the bitcoin crate and the signer." + TRUST)

P("C26", "The serde form of every type keeps every field",
  "Serializing any serde-enabled type of the crate (PSBTs of both versions and their maps, roles, keys, pairs, sighash types, proofs) writes every "
  "field exactly once, whatever its value, and every entry of every map, and deserializing puts what was written under a name or at a position back "
  "into the same field, in the same form, with nothing left out: what was serialized, in human readable or binary formats, deserializes to "
  "an equal value. Reading does not need text that the input can lend (readers and decoded values work too).",
  ["inputs"], "for every value of every serde-enabled type, in self-describing and binary formats",
  "Existing tests serialize few values, in JSON from a string only; a field or entry dropped for particular values goes unnoticed.",
  ["src/serde_utils.rs", "src/v0/bitcoin", "src/v2"],
  [("Serialize / Deserialize impls (derived and written)", "src/serde_utils.rs, src/v2/map, src/v0/bitcoin, src/v2/dleq.rs, src/raw.rs")],
  MIR + ": the expanded impls are interpreted; per field, the name, position and form written are compared with those read",
  "All fields of all types with both impls; types of other crates keep themselves." + TRUST)

P("C27", "Results depend on the arguments only",
  "No function of the crate reads the environment, files, clocks, random numbers, threads or shared mutable state, or prints to or ends the "
  "process, except for the auxiliary randomness of Schnorr signatures, and none lets the iteration order of a hash table or an address reach a result: the same "
  "PSBT always serializes to the same bytes, and the same calls give the same results in every process. There is no unsafe code.",
  ["inputs", "histories"], "for every call of every function, in every feature set and process",
  "Tests run each call once in one process; a dependence on hash seeds, time or earlier calls shows rarely.",
  ["src", "src/v0", "src/v2"], [("all functions", "src")],
  MIR + ": effect analysis of every function body, shim and closure: callees that read the outside or hash order, statics with interior mutability, unsafe blocks",
  "All bodies of the crate in each feature set; the dependencies are taken to be deterministic, apart from the denied calls." + TRUST)

P("C29", "An index outside a PSBT's lists is an error, an index inside it is not",
  "Every exported function that takes a PSBT and an input or output index and can report an error (sighash computation, "
  "spent output lookup, setting a sequence number, finalizing one input, updating an input or output with a descriptor) reports an "
  "error for an index outside the list, without panicking or changing the PSBT, and does not refuse an index inside it "
  "as out of bounds when counts and lists agree.",
  ["inputs"], "for every PSBT and every index",
  "Tests use indices 0 and 1 on well-formed PSBTs; the boundary and inconsistent lengths are untested.",
  ["src/v0/bitcoin/mod.rs", "src/v0/miniscript/mod.rs", "src/v2/mod.rs"],
  [("check_index_is_within_bounds / check_input_index", "src/v0/bitcoin/mod.rs, src/v2/mod.rs"), ("PsbtExt", "src/v0/miniscript/mod.rs")],
  MIR + ": exported functions with an index found by type, each decided under both hypotheses on the index",
  "All exported functions with a PSBT and one usize parameter, all paths." + TRUST)

P("C30", "The output an input spends is found under its own outpoint",
  "Every function that reports the output spent by an input (v2 funding_utxo and iter_funding_utxos, v0 spend_utxo, "
  "iter_funding_utxos and the finalizer's lookup) reports the witness UTXO if there is one, otherwise the output of the "
  "non-witness UTXO that this input's outpoint names, and an error if there is neither or no such output. In version 2 a "
  "non-witness UTXO with another txid than the outpoint's is refused.",
  ["inputs"], "for every PSBT, every input and every combination of present UTXO fields",
  "Test vectors spend output 0 or 1 with one UTXO field set; amounts signed and the fee depend on this lookup.",
  ["src/v2/map/input.rs", "src/v2/mod.rs", "src/v0/bitcoin/mod.rs", "src/v0/miniscript/finalizer.rs"],
  [("Input::funding_utxo", "src/v2/map/input.rs"), ("spend_utxo, iter_funding_utxos", "src/v0/bitcoin/mod.rs"), ("get_utxo", "src/v0/miniscript/finalizer.rs")],
  MIR + ": every path compared with a decision table",
  "All paths; for the iterators one arbitrary item." + TRUST)

P("C31", "The string forms of a PSBT are exactly base64 and hex of its serialization",
  "Displaying a PSBT (version 0 or 2) writes the standard padded base64 encoding of its serialization and nothing else; serialize_hex is its "
  "lower case hex. Parsing a string succeeds exactly if it is standard base64 of bytes that deserialize, and gives the value they "
  "deserialize to.",
  ["inputs"], "for every PSBT and every string",
  "Tests compare a few vectors.",
  ["src/v2/mod.rs", "src/v0/bitcoin/mod.rs", "src/v0/bitcoin/serialize.rs"],
  [("mod display_from_str, serialize_hex", "src/v2/mod.rs, src/v0/bitcoin/mod.rs, src/v0/bitcoin/serialize.rs")],
  MIR + ": provenance of what is written and decision table of the parser; format templates and the base64 engine constant are decoded",
  "All paths; base64 and hex codecs are trusted." + TRUST)

P("C32", "A PSBT sighash type keeps its number through every conversion",
  "A PsbtSighashType made from a 32-bit number, an ECDSA or a taproot sighash type has that number. It converts to an ECDSA type only if "
  "its number is a standard one, and to a taproot type only if it is at most 0xff and that of a taproot type, to the type with this number. "
  "It is printed as the taproot name if it has one and as 0x hex otherwise, and parsing either form gives the number back.",
  ["inputs"], "for every 32-bit number and every string",
  "Tests use the named types and one hex value.",
  ["src/sighash_type.rs"], [("PsbtSighashType conversions, Display, FromStr", "src/sighash_type.rs")],
  MIR + ": decision tables over all paths, conditions evaluated over boundary numbers; format templates are decoded",
  "All paths; numbers 0..299 and boundary values up to 2^32-1." + TRUST)

P("C33", "Only PSBT versions 0 and 2 exist, each encoded as its own number",
  "A PSBT version is created from a number, or parsed from bytes, only if the number is 0 or 2, and then is that version; a version "
  "converts back to, and is serialized as, exactly its number (32 bit, little endian). All four bytes decide.",
  ["inputs"], "for every 32-bit number and every byte string",
  "Tests parse valid versions only.",
  ["src/version.rs"], [("Version: TryFrom, Serialize, Deserialize", "src/version.rs")],
  MIR + ": decision table over all paths, conditions evaluated over boundary numbers",
  "All paths; conversion by serde is not covered." + TRUST)

P("C34", "A PSBT, its maps, records and keys have the byte layout of BIP-174",
  "Serialization writes the magic bytes, the global map, every input map and every output map in order; each map is its records and a zero "
  "byte; each record is the length of key type and key data, the type, the key data, and the value behind its length. A "
  "proprietary key is type 0xFC with prefix behind its length, subtype and data. Parsing reads the same parts from the same "
  "places, refuses bytes only for a wrong header, an end of data, a length of zero or beyond the consensus limit or a map parser's "
  "verdict, and takes at least 1024 bytes of proprietary key data.",
  ["inputs"], "for every PSBT, record and byte string",
  "Test vectors round-trip through the same code; a change made to both sides, or to a rarely used part, passes.",
  ["src/v2/mod.rs", "src/v0/bitcoin/mod.rs", "src/raw.rs", "src/v0/bitcoin/raw.rs", "src/serialize.rs"],
  [("Psbt::serialize / deserialize, Map::serialize_map", "src/v2/mod.rs, src/v0/bitcoin/mod.rs, src/v2/map/mod.rs"),
   ("Key, Pair, ProprietaryKey", "src/raw.rs, src/v0/bitcoin/raw.rs")],
  MIR + ": the byte string every writer builds is compared symbolically with the layout; every parsed part is traced to the reads before it",
  "All paths; integers, compact sizes and byte strings are written and read by the bitcoin crate. Bytes behind the last map are ignored by the parser." + TRUST)

P("C35", "Every field of a map is encoded as its BIP says, key data and value",
  "Each record a map writes has the key data and value encoding that BIP-174, 370, 371 and 375 give for its field (key origin as "
  "fingerprint and 32 bit little endian path, leaf script followed by its version, x-only key followed by leaf hash, tap tree "
  "as depth, version, script in tree order, amounts, heights and counts as integers, ...), and each record read is decoded from exactly those "
  "bytes; unknown records are kept as they are. A value is refused only where one of its decoders refuses it or it is shorter than any encoding.",
  ["inputs"], "for every value of every field and every record",
  "Test vectors cover few fields in few shapes (short paths, one leaf), and round-trip tests accept a wrong encoding that both sides share.",
  ["src/serialize.rs", "src/v0/bitcoin/serialize.rs", "src/v2/map", "src/v0/bitcoin/map"],
  [("Serialize / Deserialize implementations", "src/serialize.rs, src/v0/bitcoin/serialize.rs"), ("get_pairs, insert_pair / decode of every map", "src/v2/map, src/v0/bitcoin/map")],
  MIR + ": key data and value of every record compared symbolically with a table of encodings, on both sides",
  "All fields of all maps, all paths; encodings of single keys, signatures, hashes, scripts, transactions and integers are the bitcoin crate's." + TRUST)

P("C36", "The version 0 signer checks accept only inputs consistent with their UTXO",
  "The version 0 signer_checks succeed only if for every input: a non-witness UTXO has the txid of the outpoint; a redeem script "
  "comes with a witness UTXO whose script is its P2SH; a witness script comes with a witness UTXO, hashes to its script when "
  "that is P2WSH, and to the redeem script, if any, when that is P2SH; and an input with a witness UTXO does not take a legacy "
  "signature. They refuse a PSBT only if one of these fails for some input.",
  ["inputs"], "for every PSBT with any number of inputs and every combination of their fields",
  "The existing tests never call signer_checks with inconsistent scripts; a check skipped for some combination of fields goes unnoticed.",
  ["src/v0/mod.rs", "src/v0/bitcoin/mod.rs"], [("Psbt::signer_checks", "src/v0/mod.rs")],
  MIR + ": every path of one arbitrary loop iteration must contradict each forbidden condition",
  "All paths, any number of inputs; output_type is taken as a function of the input." + TRUST)

P("C37", "Builders and setters change exactly what their name says",
  "The methods of Creator, Constructor, Updater, InputBuilder and OutputBuilder set exactly the field they are named for, to the given value "
  "(flag methods exactly their flag bits; adding an input or output appends it at the end), and leave everything else as it was. Moving a PSBT "
  "into or out of a role, builder or updater changes nothing. A new PSBT, input or output holds only the given data.",
  ["inputs"], "for every PSBT, input and output and every argument",
  "Tests build one or two fixed PSBTs.",
  ["src/v2/mod.rs", "src/v2/map/input.rs", "src/v2/map/output.rs", "src/v2/map/global.rs"],
  [("Creator, Constructor, Updater, InputBuilder, OutputBuilder", "src/v2/mod.rs, src/v2/map/input.rs, src/v2/map/output.rs")],
  MIR + ": field-wise effect of every exported function that returns the PSBT, input or output it was given",
  "All exported functions found by type; flag bits are evaluated for all 256 values." + TRUST)

P("C38", "Queries on inputs and output types answer from the right fields",
  "An input is finalized exactly if it has both a final script_sig and a final witness, and a PSBT exactly if all its inputs are. The "
  "sighash type queries of an input (both versions) convert the input's own sighash type and use ALL (ECDSA) or Default "
  "(taproot) only when it has none. Taproot outputs take Schnorr signatures, all other output types ECDSA.",
  ["inputs"], "for every input, PSBT and output type",
  "Tests cover one or two combinations.",
  ["src/v2/map/input.rs", "src/v0/bitcoin/map/input.rs", "src/v2/mod.rs", "src/v0/bitcoin/mod.rs"],
  [("is_finalized, ecdsa_hash_ty, taproot_hash_ty, signing_algorithm", "src/v2/map/input.rs, src/v0/bitcoin/map/input.rs")],
  MIR + ": decision tables over all paths", "All paths." + TRUST)


def NA(id, title, statement, over, text, why, files, mech, reason):
    P(id, title, statement, over, text, why, files, mech, na=reason)


NA("C50", "Parsing a serialized PSBT gives an equal PSBT",
   "For every PSBT of either version whose counts agree with its lists, deserializing its serialization gives an equal PSBT.",
   ["inputs"], "for every PSBT value", "Tests round-trip a few vectors.", MAPS + ["src/serialize.rs"],
   [("serialize, deserialize", "src/v2/mod.rs, src/v0/bitcoin/serialize.rs")],
   "Value equality through the codecs of bitcoin, secp256k1 and miniscript (compressed points, DER signatures, scripts, transactions) "
   "is a numerical fact about external code that no static argument in reach can settle. The structural half, on this crate's own code, is decided by C01-C05, C34 and C35.")
NA("C51", "Combining is commutative, associative and idempotent",
   "Combining PSBTs of the same transaction gives the same result in whatever order and however often they are combined.",
   ["inputs", "histories"], "for all PSBTs and all orders", "Tests combine two PSBTs once.", ["src/v2/mod.rs", "src/v0/bitcoin/mod.rs"],
   [("combine_with", "src/v2/mod.rs, src/v2/map/*.rs"), ("combine", "src/v0/bitcoin/mod.rs, src/v0/bitcoin/map/*.rs")],
   "Does not hold by design: BIP-174 lets a combiner choose arbitrarily between conflicting values, and this crate keeps one side's. "
   "Without conflicts it is a relational (two-run) equality of map merges depending on run-time values; what is decidable, that nothing is lost and nothing invented, is C09.")
NA("C52", "Every signature produced verifies",
   "Every signature the signers add verifies under the key it is filed under for the message that consensus demands.",
   ["inputs"], "for every key, message and PSBT", "Tests verify a few.", ["src/v2/mod.rs", "src/v0/bitcoin/mod.rs"],
   [("sign", "src/v2/mod.rs, src/v0/bitcoin/mod.rs")],
   "Whether a signature verifies is a result of secp256k1 arithmetic. That the right key, message, label and place meet is decided by C15 and C16.")
NA("C53", "A finalized input satisfies its script whenever the data suffices",
   "Finalization finds a satisfaction whenever the signatures, preimages and timelocks in the PSBT suffice for the script, and the one it finds is minimal.",
   ["inputs"], "for every script and every set of signatures", "Tests finalize a few scripts.",
   ["src/v2/miniscript/finalize.rs", "src/v0/miniscript/finalizer.rs"], [("satisfaction", "src/v2/miniscript/*.rs, src/v0/miniscript/*.rs")],
   "Completeness and minimality of a satisfaction are decided by rust-miniscript's search over run-time scripts; static analysis of this crate cannot bound them. "
   "Soundness of what is accepted is C22.")
NA("C54", "Parsing takes time and memory linear in the input",
   "Parsing n bytes takes time and memory proportional to n, up to a logarithmic factor.",
   ["inputs"], "for every byte string", "Tests parse small inputs.", ["src/v2/mod.rs", "src/v0/bitcoin/serialize.rs", "src/serialize.rs"],
   [("record loops", "src/v2/map/*.rs")],
   "The cost of external decoders and of each decoded value is a run-time quantity; the static core, that no allocation is sized by an unchecked number from the input, is part of C10.")
NA("C55", "Encoding and deriving with extended keys is correct",
   "A key derived by GetKey along a path is the one BIP-32 defines, and xpubs are encoded as BIP-32 defines.",
   ["inputs"], "for every key and path", "Tests derive a few keys.", ["src/v0/bitcoin/mod.rs", "src/v2/mod.rs"],
   [("GetKey for Xpriv", "src/v0/bitcoin/mod.rs")],
   "Derivation is computed by bitcoin and secp256k1; that the right key and whole path are passed to it is C24.")

P("C39", "Finalization looks up signatures, keys, preimages and times of its own input",
  "The satisfier of an input (v2 finalization, v0 PsbtInputSatisfier) answers with that input's own records: the signature filed under exactly the "
  "public key (and leaf) asked for, a key, or key with signature, whose hash is the one asked for, the preimage of the hash asked for if it has 32 "
  "bytes, the taproot key signature and scripts; and none only if there is no such record. An absolute lock time is "
  "met only if the v2 input requires one of its kind at least as great, or the v0 transaction's lock time is one and the input's sequence enables it; a relative "
  "one only if the input's sequence implies it (v0: in a version 2 transaction).",
  ["inputs"], "for every PSBT, input and request", "Tests finalize a few fixed scripts.",
  ["src/v2/miniscript/satisfy.rs", "src/v0/miniscript/mod.rs"],
  [("Satisfier for InputSatisfier", "src/v2/miniscript/satisfy.rs"), ("Satisfier for PsbtInputSatisfier", "src/v0/miniscript/mod.rs")],
  MIR + ": provenance of every answer, decision tables for the lock times",
  "All 24 methods, all paths. Key hashing and miniscript's own lock time comparison are trusted." + TRUST)

P("C40", "An input is finalized only with the scripts its funding output commits to",
  "Whenever the Finalizer (v2) or PsbtExt (v0) finalizes an input, what it satisfies is determined by the input's funding output: the key the output "
  "pushes (P2PK), a key with a partial signature of this input whose hash the output or redeem script pays to (P2PKH, P2WPKH, P2SH-P2WPKH), the witness "
  "or redeem script of the input if the output commits to it by hash (P2WSH, P2SH-P2WSH, P2SH), or the output script itself (bare). A taproot input "
  "gets its key signature if it has one, otherwise a satisfied leaf followed by that leaf's script and that leaf's control block. An input whose script "
  "is missing, does not match the output, or does not belong there (a redeem script with P2WSH, a witness script with P2SH or bare) is refused, and "
  "an input is refused for its scripts or keys only in these cases, or if the script is no miniscript or cannot be satisfied.",
  ["inputs"], "for every PSBT and input", "Tests finalize a few fixed PSBTs.",
  ["src/v2/miniscript/finalize.rs", "src/v0/miniscript/finalizer.rs"],
  [("get_descriptor", "src/v2/miniscript/finalize.rs"), ("construct_tap_witness", "src/v2/miniscript/finalize.rs"),
   ("get_descriptor", "src/v0/miniscript/finalizer.rs"), ("construct_tap_witness", "src/v0/miniscript/finalizer.rs")],
  MIR + ": guard and provenance table per output kind, loop-exhaustion rule for refusals",
  "All paths of the four functions, including closures and loops. Script hashing, address building, miniscript parsing and satisfaction are trusted." + TRUST)

P("C41", "Key sources of an xpub in both PSBTs are reconciled, never mixed",
  "When both PSBTs combined (either version) list the same extended public key, the result keeps this PSBT's key source if the two are the same or the "
  "other's derivation path is shorter and a suffix of it, takes the other's key source (fingerprint and path) if this path is shorter and a suffix of the "
  "other's, and otherwise - same path with another fingerprint, other path of the same length, not a suffix - combining is refused with an error.",
  ["inputs"], "for every pair of key sources: any path lengths and fingerprints",
  "Tests never combine PSBTs with conflicting xpubs; the seven outcomes need particular lengths and fingerprints.",
  ["src/v2/map/global.rs", "src/v0/bitcoin/mod.rs"],
  [("Global::combine", "src/v2/map/global.rs"), ("Psbt::combine", "src/v0/bitcoin/mod.rs")],
  MIR + ": path conditions against the table of the twelve relations of two key sources",
  "All paths of one arbitrary iteration over the other PSBT's xpubs." + TRUST)
