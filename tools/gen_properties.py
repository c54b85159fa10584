#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay readable and diffable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
BC='bitcoin-cash/src/'; BB='bitcoin-cash-base/src/'; SM='bitcoin-cash-script-macro/src/'
p('C01','Transaction wire format round-trips byte for byte',
 'Serialising any transaction yields exactly the Bitcoin consensus wire encoding of its version, inputs, outputs and lock time (little-endian fields, compact-size counts and lengths), and parsing those bytes gives the same transaction back. Parsing any well-formed consensus transaction and serialising it again reproduces the original bytes, and the same holds for outpoints, inputs and outputs on their own.',
 ['inputs'],'every transaction value (0..many inputs and outputs, every field value, scripts of every length class) and every consensus-encoded transaction',
 'The tests round-trip one or two fixed transactions; the compact-size and push-length class boundaries and arbitrary script bytes are never combined.',
 [BC+'tx.rs',BC+'bitcoin_code.rs',BC+'script.rs','bitcoin-cash-code/src/lib.rs',BB+'encoding_utils.rs'],
 [('BitcoinCode derive and impls',BC+'bitcoin_code.rs'),('compact size',BB+'encoding_utils.rs')],['UnhashedTx::ser','UnhashedTx::deser'])
p('C02','Decoding untrusted bytes never crashes and never over-reads',
 'Decoding arbitrary bytes as a transaction, outpoint, input, output, script, hash, integer, byte string or list either succeeds or returns an error: it never panics, aborts, overflows the stack, or allocates memory out of proportion to the input. Every strict prefix of a valid encoding is rejected, and trailing bytes after a complete item are rejected by the whole-input decoder and returned unchanged by the streaming one.',
 ['inputs'],'all byte strings, in particular truncations, bit flips, hostile length and count fields and spliced encodings',
 'The tests feed well-formed data only; hostile lengths up to 2^64-1 and truncation at every byte offset are not tried.',
 [BC+'bitcoin_code.rs',BC+'script.rs',BC+'serializer.rs',BB+'byte_array.rs',BB+'encoding_utils.rs'],
 [('length checks in split',BB+'byte_array.rs'),('read_size',BC+'bitcoin_code.rs')],['BitcoinCode::deser','BitcoinCode::deser_rest'])
p('C03','Script bytecode encoding and decoding follow consensus',
 'Decoding script bytes splits them into exactly the opcodes and push payloads that a consensus script tokenizer finds, rejecting truncated pushes, and the two decoding entry points agree. Encoding a list of operations uses the shortest push form for minimal pushes, the length-prefixed form for pushes marked non-minimal, the single-byte form for small integers and booleans, and decoding the result gives back the same operations up to those equivalences.',
 ['inputs'],'all byte strings as scripts; all operation lists with payload lengths across 0,1,75,76,255,256,65535,65536 and every one-byte payload and opcode',
 'Tests cover a few fixed scripts; not all 256 one-byte payloads, opcodes and length-class boundaries in both decoders.',
 [BC+'script.rs',BB+'op.rs',BB+'opcode.rs'],[('serialize_push_prefix',BC+'script.rs'),('deserialize_ops*',BC+'script.rs')],['Script::ser_ops','Script::deser_ops'])
p('C04','Script numbers are encoded minimally and decoded correctly',
 'Every script integer encodes to the unique minimal little-endian sign-magnitude byte string, which decodes back to the same integer. Decoding a byte string of up to four bytes always gives exactly the sign-magnitude value it denotes; longer strings give that exact value or an error, never a different number. Trimming a byte string to its minimal form keeps the number.',
 ['inputs'],'all 32-bit script integers and all byte strings of length 0 to 12',
 'Tests encode a handful of values; wrong answers appear only for particular bit patterns and overlong encodings.',
 [BB+'encoding_utils.rs',BB+'op.rs',BC+'script.rs'],[('encode_int/encode_minimally/vec_to_int',BB+'encoding_utils.rs')],['encoding_utils','Op::to_integer','Script::ser_ops'])
p('C05','Script integer arithmetic is exact or reports an error',
 'Every arithmetic, bitwise, shift, negation, conversion and comparison operation on script integers either yields the mathematically exact 32-bit result (truncating division, remainder with the sign of the dividend) or an error when the result is outside the script range or undefined; it never wraps silently or panics. Shifts are the shifts of the 32-bit two\'s complement number (bits shifted out are dropped), with amounts of 32 or more and a result of -2^31 being errors. An error in any operand makes the whole expression an error. Comparisons agree with the order of the underlying numbers and an errored value compares equal to nothing.',
 ['inputs'],'all pairs of integers including range ends, zero divisors, negative operands, all supported operand types, and chained expressions',
 'The tests use a few dozen hand-picked pairs.',
 [BB+'integer.rs'],[('checked_* operations behind IntegerResult',BB+'integer.rs')],['Integer','IntegerResult','UInteger'])
p('C06','Signature-hash preimages follow the BIP143/FORKID algorithm',
 'For every transaction, input and signature-hash type, the preimage produced for signing serialises to exactly the bytes the Bitcoin Cash replay-protected signature-hash algorithm prescribes: version, prevouts hash, sequence hash, outpoint, script code after the first code separator, value, sequence, outputs hash, lock time and hash type. This includes the zeroed hashes for ANYONECANPAY, NONE and SINGLE and the out-of-range SINGLE case. Each hash that is not zeroed records the bytes it was computed from.',
 ['inputs'],'all transactions with any number of inputs and outputs, all inputs, all hash-type combinations, several hash types per input, lock scripts with and without code separators',
 'Tests check DEFAULT flags on one or two fixed transactions.',
 [BC+'tx_preimage.rs',BC+'tx.rs',BC+'script.rs',BC+'tx_builder.rs'],[('build_preimages',BC+'tx_preimage.rs'),('to_script_code_first',BC+'script.rs')],['UnhashedTx::preimages','UnsignedTx::preimages'])
p('C07','Transaction id and raw bytes always describe the transaction held',
 'A hashed transaction always holds raw bytes that are a serialisation of the transaction it exposes (its own serialisation, or the bytes it was decoded from, which decode to exactly that transaction) and an id equal to the double SHA-256 of those bytes, displayed in reversed hex. This is so however the hashed transaction came to be: hashing a transaction, or decoding one from its serialised form.',
 ['inputs','histories'],'all transactions and all ways of obtaining a hashed transaction through the public API',
 'Tests compare one known txid; no test decodes a hashed transaction.',
 [BC+'tx.rs',BC+'hash.rs'],[('UnhashedTx::hashed',BC+'tx.rs'),('BitcoinCode for Tx',BC+'tx.rs')],['Tx::hash','Tx::raw','Tx::inputs'])
p('C08','The builder conserves value and honours fees and leftover bounds',
 'A built transaction contains every fixed output unchanged and in order, never pays out more than its inputs provide, and gives each leftover output a value strictly above its lower bound and at most its upper bound, assigned in order of precedence. Whenever a leftover output is present the remaining fee is at least the fee rate times the estimated size (rounded down), no leftover is dropped that the rule would have afforded, and insufficient inputs are reported as an error with the exact shortfall.',
 ['inputs'],'all input and output amounts (whose sums fit in 64 bits), fee rates, numbers and bounds of leftover outputs, precedences, and script sizes',
 'Tests use one or two leftover outputs with fixed amounts; fee rounding, bounds equal to the amount and equal precedences are not covered.',
 [BC+'tx_builder.rs'],[('TxBuilder::build',BC+'tx_builder.rs'),('estimate_size',BC+'tx_builder.rs')],['TxBuilder::build','UnsignedTx::complete_tx'])
p('C09','Signing an input touches that input only, once, in any order',
 'An input can be signed exactly once: a second attempt, by any of the signing calls, is an error and leaves the transaction as it was. Whatever the order of signing, every input keeps its outpoint, sequence, value, lock script and hash types, receives the unlocking script its own signatory builds (with the redeem script appended exactly for P2SH), and the completed, partial or rebuilt transaction keeps version, lock time, outputs and the order of inputs.',
 ['histories','inputs'],'all sequences of sign, re-sign, partial export, rebuild from a transaction and complete, over any number and kind of inputs',
 'Tests sign one or two inputs in index order, once.',
 [BC+'tx_builder.rs',BC+'scripts.rs'],[('sign_input_dyn / sign_input_signatory guards',BC+'tx_builder.rs'),('partial_tx / from_tx',BC+'tx_builder.rs')],['UnsignedTx','TxBuilder::from_tx'])
p('C10','Built and signed transactions verify end to end',
 'A transaction built for P2PKH or P2SH inputs and signed with the right key carries, in every input, an unlocking script that satisfies the locking script: the pushed public key or redeem script hashes to the locked hash and every signature, with its trailing hash-type byte, verifies against an independently computed signature hash. The signature stops verifying as soon as any field that its hash type commits to is changed, and keeps verifying when only uncommitted fields change.',
 ['inputs','histories'],'all keys, amounts, hash types, input mixes and single-field mutations',
 'Tests check one or two signatures, with no independent digest and no mutation.',
 [BC+'tx_builder.rs',BC+'tx_preimage.rs',BC+'scripts.rs','bitcoin-cash-ecc/src/c_ecc.rs'],[('P2PKHSignatory',BC+'scripts.rs'),('sign/verify','bitcoin-cash-ecc/src/c_ecc.rs')],['UnsignedTx::complete_tx','ECC::verify'])
p('C11','Both ECDSA back ends satisfy the signature laws and agree',
 'With either back end, a signature made for a message under a valid secret key verifies under that key\'s public key and under no other message or key, is strict low-S DER and deterministic; secret keys outside 1..order-1 and wrong-sized keys or messages are errors, and malformed input is an error or a negative verdict, never a panic or memory error. Normalising a signature, leniently encoded ones included, gives the equivalent low-S signature, and the two back ends derive identical public keys and normalisations, produce identical signatures for every message below the group order, and always accept each other\'s output.',
 ['inputs','configurations'],'all secret keys (range ends included), all messages, all byte strings offered as keys or signatures, both back ends',
 'The tests never run the pure-Rust back end and the C one only on valid input.',
 ['bitcoin-cash-ecc/src/c_ecc.rs','bitcoin-cash-ecc/src/rust_ecc.rs',BC+'pubkey.rs'],[('ECC trait implementations','bitcoin-cash-ecc/src')],['ECC'])
p('C12','CashAddr encoding is exact, invertible and error-detecting',
 'Every (prefix, type, hash) encodes to exactly the address string the CashAddr specification prescribes, and decoding it, with the prefix or without it for the default prefix, in lower or upper case, returns the same prefix, type and hash. Strings with up to four altered payload characters (letter case aside), a wrong prefix, characters outside the alphabet, an unsupported type or size, non-zero padding or a bad length are rejected with an error and never panic.',
 ['inputs'],'all hashes, both types, all lower-case prefixes; all strings, with emphasis on few-character corruptions and validly checksummed malformed payloads',
 'Tests decode a fixed list of good addresses and a few bad ones; the checksummed-but-malformed class needs a checksum forger.',
 [BC+'address.rs'],[('polymod checksum',BC+'address.rs'),('convert_bits',BC+'address.rs')],['Address::from_hash','Address::from_cash_addr'])
p('C13','Addresses and locking scripts correspond one to one',
 'The locking script of an address is byte for byte the standard P2PKH or P2SH template for its hash, and classifying that script gives back the same address; the address of a redeem script or public key is the one whose hash is the HASH160 of its serialisation. Classifying any script never panics and reports an address only for scripts whose operations are exactly the standard template with a 20-byte hash, a public-key output, data output or unlocking spend only for their own shapes, and anything else as unknown.',
 ['inputs'],'all addresses; all scripts including near-miss templates (wrong hash lengths, extra or missing opcodes, non-push elements)',
 'Tests cover a few templates with correct hash lengths.',
 [BC+'destination.rs',BC+'scripts.rs',BC+'address.rs'],[('script_destination',BC+'destination.rs'),('p2pkh_script/p2sh_script',BC+'scripts.rs')],['script_destination','script_p2pkh_spend','Into<Script> for Address'])
p('C14','Byte-string operations are exact and their provenance is truthful',
 'Concatenating, splitting, joining, naming, hashing and number-to-bytes conversion give exactly the bytes the operation defines or an error for out-of-range arguments. The recorded provenance is truthful at every level: the parts listed for a concatenation are those of its operands in order and join to its bytes, the argument listed for a hash hashes to its bytes, splitting a hash or signature never presents its message as its content (and marks the pieces of a computed hash as such), and names never change bytes, equality or hashing.',
 ['inputs','histories'],'all sequences of operations over byte strings, all split positions, all integers and widths',
 'Tests check a few compositions; truthfulness must hold after every history of operations.',
 [BB+'byte_array.rs',BC+'hash.rs'],[('concat_named_option / split / apply_function / from_int',BB+'byte_array.rs')],['ByteArray'])
p('C15','Transaction JSON is lossless, including provenance and annotations',
 'Exporting any transaction (provenance nested up to 1000 levels) to the annotated JSON form and importing it again gives the same transaction: version, outpoints, sequences, lock time, values, every operation and push form, optional input metadata, source positions, source text, stack-item names, and the full provenance tree (bytes, names, functions, preimages) of every pushed byte string. Importing is stable: exporting the imported transaction again gives the same document.',
 ['inputs'],'all transactions with arbitrary annotations and provenance trees, with shared, repeated, empty and nested data',
 'Tests export one transaction and compare a few fields; equality on operations ignores names, push form and provenance.',
 [BC+'serialize_json.rs'],[('JsonTx/JsonData index tables',BC+'serialize_json.rs')],['tx_to_json','json_to_tx'])
p('C16','Importing hostile JSON or binary documents never crashes',
 'Importing arbitrary text as annotated transaction JSON, or deserialising arbitrary JSON or binary documents into any of the library\'s serialisable types, either succeeds or returns an error; it never panics, aborts or exhausts the stack. Indices out of range, cyclic or self references, provenance nested deeper than 1000 levels, wrong lengths, wrong types and invalid numbers in an otherwise valid document are errors.',
 ['inputs'],'all documents, with emphasis on valid documents with indices, lengths, numbers or nesting mutated',
 'Tests import only documents the library itself produced.',
 [BC+'serialize_json.rs',BB+'byte_array.rs',BC+'address.rs',BC+'pubkey.rs',BC+'script.rs',BB+'integer.rs'],[('index checks',BC+'serialize_json.rs'),('Deserialize impls',BB+'byte_array.rs')],['json_to_tx','serde Deserialize'])
p('C17','Hash functions match their standards and keep byte order straight',
 'SHA-1, RIPEMD-160, SHA-256, double SHA-256 and HASH160 of any message equal the standard digests, and the recorded provenance names that function and message. Conversions between hash values, raw bytes, reversed bytes, big-endian hex and little-endian hex are mutually inverse, display uses the reversed hex, and wrong-length or non-hex input is an error.',
 ['inputs'],'all messages (block-boundary lengths included) and all hash values and hex strings',
 'Tests check one vector per function.',
 [BC+'hash.rs',BB+'byte_array.rs'],[('Hashed trait',BC+'hash.rs')],['Hashed'])
p('C18','SLP outputs are valid per the SLP token specification',
 'Every genesis and send output produced is a zero-value data output whose bytes an independent strict SLP parser accepts, and the parser recovers exactly the token type, ticker, name, document URL and hash, decimals, mint baton position, quantities and token id that were asked for. Converting an SLP transaction into a plain transaction keeps version, inputs, outputs and lock time in order, and token ids convert between hash and bytes without loss.',
 ['inputs'],'all token metadata (empty and long strings included), all decimals and baton positions, 1 to 19 amounts over the full 64-bit range, all token ids and types',
 'Tests compare one genesis and one send script.',
 ['bitcoin-cash-slp/src/lib.rs'],[('slp_genesis_output / slp_send_output','bitcoin-cash-slp/src/lib.rs')],['slp_genesis_output','slp_send_output'])
p('C19','The script macro emits exactly the operations that were written',
 'For every script function the compiler accepts, the generated script consists of the pushes and opcodes of its statements in source order, with nested conditionals in their written places, each push carrying the value of its expression evaluated on the given parameters, and the generated inputs push the declared input fields in declaration order (per variant, only the fields of that variant). Turning the debug annotations off changes no operation.',
 ['programs','inputs'],'all well-formed script functions: all usable opcodes, pushes of every type, nested and sequential conditionals with and without braces, variants, parameters',
 'Tests compile about a dozen fixed scripts.',
 [SM+'generate.rs',SM+'parse.rs'],[('parse_op_if',SM+'parse.rs'),('run_stmt/run_opcode/run_if',SM+'generate.rs')],['#[script] expansion','TaggedScript::script'])
p('C20','The script macro\'s stack names describe what is really on the stack',
 'Executing an accepted script on an independent interpreter, the annotation of every operation lists one entry per item it pushes, every name in it labels the item really at that position (moved and copied items keep their name, written output names are applied), depth_of yields the true depth of the named item, and the attached source text is that of the statement that wrote the operation, in every variant. This holds for scripts whose branches leave equally named stacks in each variant and whose pick and roll depths come from depth_of, also where the stack\'s height differs from variant to variant and each variant\'s depth takes the item of the same name; a pick or roll that would take differently named items in different variants is rejected; scripts of that kind whose written names match are accepted. Scripts whose written argument names do not match the real stack order, that pop an empty stack, give the wrong number of arguments or outputs, leave a conditional open, give a conditional a second else, or use unknown opcodes, functions or variants are rejected at compile time.',
 ['programs','inputs'],'all accepted script functions and all single-error mutations of them',
 'Tests compile only scripts that are accepted; no test checks that a wrong script is rejected.',
 [SM+'generate.rs',SM+'state.rs',SM+'parse.rs',BB+'opcode.rs'],[('VariantStates',SM+'state.rs'),('name checks in run_opcode',SM+'generate.rs')],['#[script] expansion','TaggedOp::pushed_names'])
p('C21','The opcode table agrees with Bitcoin Cash consensus',
 'Every opcode has its consensus byte value and name, the conversions between byte, name and opcode are mutually inverse, and decoding any byte gives that opcode or an invalid-opcode marker that re-encodes to the same byte. The declared stack behaviour of each opcode (number of items consumed and produced, and which produced items are which input items) is what executing the opcode on an independent interpreter does.',
 ['inputs'],'all 256 byte values and every opcode with declared stack behaviour on arbitrary distinct stack contents',
 'Tests exercise few opcodes; one wrong table entry passes every test that does not use that opcode.',
 [BB+'opcode.rs',BB+'op.rs',BC+'script.rs'],[('Opcode enum and behavior table',BB+'opcode.rs')],['Opcode','Opcode::behavior','MAP_NAME_TO_ENUM'])
p('C22','Serialisable types survive JSON and binary serde round trips',
 'Serialising any transaction, input, output, outpoint, script (as decoded from bytes), byte string, hash, public key, address, integer or SLP record with a human-readable or a binary serde format and deserialising it gives back an equal value, also when the value was itself parsed from one of its other accepted notations. The human-readable form is the documented one: hex for byte strings and scripts, reversed hex for hashes, the CashAddr string for addresses, decimal for integers.',
 ['inputs','configurations'],'all values of the serialisable types, in JSON and in a compact binary format',
 'Tests round-trip a few types in JSON only.',
 [BC+'tx.rs',BC+'script.rs',BC+'hash.rs',BC+'address.rs',BC+'pubkey.rs',BB+'byte_array.rs',BB+'integer.rs','bitcoin-cash-slp/src/lib.rs'],[('Serialize/Deserialize impls',BC)],['serde'])
p('C23','User structures derive a faithful wire codec',
 'A user structure that derives the wire codec serialises its non-skipped fields in declaration order with no padding, decodes to an equal value with skipped fields at their defaults, and returns exactly the unread remainder. Integers are little-endian at their own width, lists are prefixed by a compact-size count, nested structures and lists compose, and concatenated items decode back to the same list of items.',
 ['programs','inputs'],'structures mixing all integer widths, booleans, byte strings, fixed arrays, nested lists, nested structures and skipped fields, with arbitrary values and trailing data',
 'Tests round-trip three small structures once each.',
 ['bitcoin-cash-code/src/lib.rs',BC+'bitcoin_code.rs',BC+'serializer.rs',BB+'encoding_utils.rs'],[('derive macro','bitcoin-cash-code/src/lib.rs')],['BitcoinCode','encode_bitcoin_code_all','decode_bitcoin_code_all'])
p('C24','Estimated size bounds the size of the signed transaction',
 'The size the builder estimates before signing, and hence the fee it reserves, is at least the serialised size of the completed transaction whenever every signature is no longer than its placeholder, for every mix of inputs and outputs. No signature of the library with its hash type byte (72 bytes at the most) is longer than its placeholder. With signatures exactly as long as the placeholders it equals the final size, and each unlocking-script builder is given that estimate, the actual outputs, its own lock script and its own preimages.',
 ['inputs','histories'],'all mixes of P2PKH and P2SH inputs with one or several signatures, counts across compact-size boundaries, redeem scripts across push-length classes, dropped and kept leftover outputs',
 'Tests have one or two inputs and never compare the estimate with the result.',
 [BC+'tx_builder.rs',BC+'scripts.rs',BC+'tx.rs'],[('estimate_size',BC+'tx_builder.rs'),('placeholder_signatures',BC+'scripts.rs')],['UnsignedTx::estimated_size','UnsignedTx::complete_tx'])
p('C25','Code-separator script code and relative-lock sequences are exact',
 'The script code after the n-th code separator is exactly the operations following that separator, the script code after the first separator is the same as asking for separator zero and is the whole script when there is none, and neither changes the original script. A relative lock time encodes to the sequence number that consensus interprets as that many blocks or that many 512-second units.',
 ['inputs'],'all scripts with any number and placement of code separators and all 2 x 65536 relative lock times',
 'No test calls either with more than one separator.',
 [BC+'script.rs',BC+'sequence.rs'],[('to_script_code',BC+'script.rs'),('CsvTimedelta::sequence',BC+'sequence.rs')],['Script::to_script_code','CsvTimedelta::sequence'])
p('C26','The script macro accepts exactly the type-correct scripts',
 'A script function whose argument names and stack shapes are right compiles if and only if every opcode is applied to items of the types Bitcoin Cash gives its arguments: numeric opcodes to integers, boolean ones to booleans, hashing, splicing and signature opcodes to byte strings, equality opcodes to two items of one type, and generic stack opcodes and OP_IF to anything (whether OP_VERIFY insists on a boolean is left open). An item has the type of the pushed Rust expression, of the declared input, of the opcode result or of the transmute that made it, and it keeps that type when it is moved, copied, taken from the alt stack, or left equally named and typed by every branch of a conditional. The argument and result types declared in the opcode table, and the data type reported for each pushed value, are those same types.',
 ['programs'],'every opcode with every combination of argument types and every use of its results, and all script functions of the macro language with a well- or ill-typed operation at any place',
 'Tests compile only scripts that are accepted, and each opcode with at most one argument typing; a relaxed or wrong signature passes all of them.',
 [BB+'opcode.rs',BB+'data_type.rs',SM+'generate.rs',SM+'state.rs'],[('opcode functions (func module)',BB+'opcode.rs'),('behavior table',BB+'opcode.rs'),('generated typed bindings',SM+'generate.rs')],['compile verdict of #[script] functions','Opcode::behavior','BitcoinDataType::to_data_type'])
p('C27','Values and curve contexts can be shared between threads',
 'Byte strings with their provenance, scripts, transactions, hashes, keys, addresses, builders, unsigned transactions, errors and the ECDSA context can be sent to and used from several threads at once. Any number of threads working on the same objects, or each on objects of its own, get exactly the answers one thread alone gets (signatures, hashes, encodings, provenance, JSON, error values), whatever the order or overlap of their calls, the very first use in a process included, and no call races with another on unsynchronised memory.',
 ['schedules','inputs','histories'],'all interleavings of calls from up to ten threads on shared and unshared objects, over all parts of the library at once',
 'No test starts a thread; a shared scratch buffer, a cache without synchronisation or a type that can no longer be sent is invisible to them.',
 [BB+'byte_array.rs',BB+'opcode.rs',BC+'script.rs',BC+'hash.rs',BC+'tx_builder.rs','bitcoin-cash-ecc/src/c_ecc.rs'],[('Arc-held byte strings and provenance',BB+'byte_array.rs'),('Send + Sync signatories',BC+'tx_builder.rs'),('lazily built opcode map',BB+'opcode.rs'),('shared curve context','bitcoin-cash-ecc/src/c_ecc.rs')],['all public calls'])
p('C28','Provenance of any depth and any sharing is affordable',
 'A byte string whose provenance is a chain of any number of functions, or a graph whose parts are used any number of times, and a list of any number of items, can be built, cloned, compared, hashed, split, pushed in a script, serialised, decoded, exported as transaction JSON, moved to another thread and dropped without exhausting the stack or panicking, with the right bytes and truthful provenance throughout (importing it again may be refused only beyond 1000 levels). The exported document and the memory used by exporting, importing, serialising and decoding stay proportionate to the bytes plus the number of distinct parts, however many paths lead to a part. (Debug output, which spells out the whole tree, is left out.)',
 ['inputs','histories'],'chains of any length, shared graphs of any fan-out and lists of any length, used in any way and dropped in any order on any number of threads',
 'Tests build provenance two or three levels deep; anything recursive or exponential works on those.',
 [BB+'byte_array.rs',BC+'serialize_json.rs',BC+'bitcoin_code.rs'],[('ByteArray drop, from_parts, split',BB+'byte_array.rs'),('insert_byte_array',BC+'serialize_json.rs')],['ByteArray','tx_to_json','json_to_tx','BitcoinCode for Vec'])
p('C29','Values, operations and their written texts stand for each other',
 'Every value that can be pushed (integer, boolean, byte slice, byte string, hash, public key, transaction preimage) becomes an operation that pushes exactly the item consensus knows for that value, with its data and declared data type (length included where one is given) telling the truth and its name kept. An operation converted to a number gives the number consensus reads from the item it pushes whenever that fits (and none if it pushes no number of at most four bytes), converted to a byte string gives exactly the pushed bytes, and two operations or their patterns are equal exactly if kind and value are (the form of a push does not matter). The text of an operation is its consensus opcode name, OP_TRUE or OP_FALSE, the decimal number, 0x and hex for byte strings or the two hex digits of an invalid byte, and the text of a script, key or byte string spells out exactly its contents. Converting bytes to a public key keeps them and accepts exactly 33. The default transaction and the one of a fresh simple builder are version 1, empty and without lock time.',
 ['inputs'],'every opcode byte, boundary and random values of every pushable type, and pairs of operations that differ in one respect',
 'Tests convert a handful of values; off-by-one or sign errors at other numbers and a wrong kind in one conversion pass them.',
 [BB+'op.rs',BB+'data_type.rs',BB+'integer.rs',BC+'hash.rs',BC+'pubkey.rs',BC+'tx_preimage.rs',BC+'script.rs'],[('Op',BB+'op.rs'),('BitcoinDataType impls',BB+'data_type.rs')],['Op','PatternOp','BitcoinDataType','Display'])
p('C30','Compiling a script is reproducible',
 'Compiling the same script function or derived structure any number of times, in any process, environment and order, alone or beside any other functions, by several compilers at once, gives the same code, or the same errors at the same places, and leaves nothing behind in the file system. So a script template always has the same bytes and the same hash, and what is accepted once is accepted always.',
 ['inputs','configurations','histories'],'all script functions and derived structures, accepted and rejected, compiled any number of times in any company',
 'Each test is compiled once per build; an order-dependent or environment-dependent expansion passes whenever the tests happen to be compiled the lucky way.',
 [SM+'generate.rs',SM+'state.rs',SM+'parse.rs','bitcoin-cash-script-macro/src/lib.rs','bitcoin-cash-code/src/lib.rs'],[('variant and name maps',SM+'generate.rs'),('VariantStates',SM+'state.rs')],['#[script] expansion','#[derive(BitcoinCode)] expansion'])
p('C31','Calls have no effect besides their results',
 'Encoding, decoding, hashing, signing, verifying, address, building, SLP, provenance and JSON calls answer the same for the same arguments however often, in whatever order, process, environment, working directory and at whatever time they are made, with either curve back end. They print nothing, touch no file, socket or other process, change neither the environment nor any other state of the process (descriptors, directory, signals, threads, rounding), and leave the objects they are called on as they were.',
 ['inputs','histories','configurations'],'all calls, in every order and number of repetitions, in every surrounding of the process',
 'Tests run each call once, in one process and environment, and their harness hides what they print.',
 [BC+'tx_builder.rs',BC+'serialize_json.rs',BC+'script.rs',BB+'byte_array.rs',BB+'opcode.rs','bitcoin-cash-ecc/src/c_ecc.rs','bitcoin-cash-ecc/src/rust_ecc.rs','bitcoin-cash-slp/src/lib.rs'],[('every public function',BC+'lib.rs'),('lazily built opcode map',BB+'opcode.rs')],['all public calls'])
p('C32','Errors tell the facts of the call that failed',
 'A call that is refused names the right kind of error with the numbers that really occurred: the operands and result position of an integer overflow, the expected and actual sizes of keys, hashes and slices, the index and length of a split, the missing amount of a transaction, the input signed twice, the index and letter of a bad address character or hex digit, the version byte of an address, the number of bytes left over after decoding, the index a transaction JSON refers to in vain. The text of the error says the same numbers. With several faults in one call the error names one of them; a refused call does not change the object it was made on.',
 ['inputs'],'all calls with one or two faults, in every integer operation, decoder, constructor and builder call',
 'Tests assert that a few calls fail, hardly ever with which numbers; swapped fields or a wrong operator in one message pass them.',
 [BC+'error.rs',BB+'integer.rs',BB+'byte_array.rs',BC+'address.rs',BC+'bitcoin_code.rs',BC+'serialize_json.rs',BC+'tx_builder.rs',BC+'ecc.rs','bitcoin-cash-ecc/src/c_ecc.rs'],[('Error',BC+'error.rs'),('IntegerError',BB+'integer.rs'),('ByteArrayError',BB+'byte_array.rs'),('JsonError',BC+'serialize_json.rs')],['Error variants and their Display texts'])
p('C33','Everything that is dropped is given back',
 'Whatever calls are made and however often, with results and objects kept or dropped in any order, the memory in use is that of the values still alive: once the result of a call is dropped, exactly as many bytes are in use as before the call (one-time set-up at first use apart), and a set of byte strings with shared provenance, scripts, transactions, builders, addresses or curve contexts that is made and dropped again leaves nothing behind, refused calls and panics included, with either curve back end.',
 ['histories','inputs'],'all histories of calls on shared and unshared objects, of any length, dropped in any order',
 'A test process ends after one call of each kind; a leak, a growing cache or a cycle of references is invisible to it.',
 [BB+'byte_array.rs','bitcoin-cash-ecc/src/c_ecc.rs','bitcoin-cash-ecc/src/rust_ecc.rs',BC+'tx_builder.rs',BC+'serialize_json.rs',BC+'address.rs'],[('Drop of shared provenance',BB+'byte_array.rs'),('curve contexts','bitcoin-cash-ecc/src/c_ecc.rs')],['all public calls'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
