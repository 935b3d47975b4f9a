#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here because JSONL is unpleasant to edit by hand)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
NOTEST = "The only tests are ten fixed-vector tests of the text codecs; nothing in the suite reaches this code, and "

# ---------------------------------------------------------------- index
p("S01", "Unspent-output set and per-address listing stay in lockstep",
  "Every change to an index is applied to its set of unspent outputs and to its per-address listing together: an added output is listed under exactly the address it pays (and under none if it pays none) with its value, and a spent output disappears from both. An address left with no unspent output disappears from the listing.",
  ["inputs", "histories"], "every sequence of additions and spends, for outputs with and without an address",
  NOTEST + "the two views only diverge on particular add/spend histories.",
  ["src/store/transaction_store_backend.rs"],
  [("add/spend on the indexed backend", "IndexedTransactionStoreBackend::{add,spend}_transaction_output")],
  [("unspent_txo_address_map", "outpoint -> (value, address)", "src/store/transaction_store_backend.rs"),
   ("address_unspent_txos_map", "address -> outpoint -> value", "src/store/transaction_store_backend.rs")])
p("S02", "Applying a transaction spends all its inputs and adds all its outputs",
  "Applying a transaction to any index first spends every one of its inputs except the coinbase null outpoint (all-zero hash and index 2^32-1), and then adds every one of its outputs except those whose script starts with OP_RETURN. Each added output is identified by that transaction's id and the output's own position, and carries its own value and the address its own script pays, if any.",
  ["inputs", "histories"], "every transaction: any number of inputs/outputs, coinbase or not, any script including the empty one",
  NOTEST + "the statement ranges over all transactions.",
  ["src/store/transaction_store.rs"],
  [("transaction application", "TransactionStore::{add_transaction,spend_transaction_outputs}")])
p("S03", "Spending an unknown output is fatal in the index and in overlays",
  "When a transaction being applied spends an output that is not available, the durable index and every overlay stop the process instead of continuing with a wrong balance. Only the intermediate per-batch indexes tolerate it, recording the spend for the merge.",
  ["inputs", "histories"], "every way an index is constructed (fresh, loaded from file, overlay) and every block applied to it",
  NOTEST + "only inconsistent histories exercise it.",
  ["src/store/transaction_store.rs", "src/store/store.rs"],
  [("strict flag and assertion", "TransactionStore::spend_transaction_outputs and the constructors")])
p("S04", "An overlay is exactly its base minus spent plus added outputs",
  "Through an overlay, an output is available exactly when the overlay added it and has not spent it, or the base index holds it and the overlay has not spent it; spending through the overlay succeeds exactly for available outputs. Per-address listing through an overlay shows the base's outputs for that address not spent by the overlay plus the overlay's own for that address, and without an overlay exactly the base's; each listed output is delivered once. Building or reading an overlay never changes the base.",
  ["inputs", "histories"], "every combination of base contents, overlay additions and overlay spends",
  NOTEST + "membership is a function of three sets over all histories.",
  ["src/store/transaction_store_backend.rs", "src/store/transaction_store.rs"],
  [("overlay backend", "AugmentedTransactionStoreBackend"), ("read-only view", "ReadonlyAugmentedTransactionStoreBackend")])
p("S05", "Batch indexes compose: unresolved spends and net outputs are merged exactly",
  "A batch index keeps exactly the outputs created and not spent within the batch, and records exactly the spends of outputs it does not hold. Merging it into an index appends all its block headers, applies all recorded spends before adding any of its outputs, and adds every kept output with its address and value.",
  ["inputs", "histories"], "every partition of a chain into batches and every intra-/inter-batch spend pattern",
  NOTEST + "errors show only for particular spend patterns across batch borders.",
  ["src/store/transaction_store_backend.rs", "src/store/transaction_store.rs", "src/store/store.rs"],
  [("batch backend", "IntermediaryTransactionStoreBackend"), ("merge", "IntermediaryTransactionStore::merge, IntermediaryStore::merge")])
p("S06", "Parallel indexing consumes every batch once, in chain order",
  "However worker threads are scheduled, batch results are delivered strictly in the order of the input batches, each exactly once, never skipping over a missing one; a worker that fails makes the build fail instead of dropping its batch. The batches are consecutive, complete, non-empty, non-overlapping slices of the input in order.",
  ["schedules", "inputs"], "every interleaving of worker threads, any number of threads and any batch size of at least one",
  NOTEST + "it quantifies over schedules.",
  ["src/sequential_thread_pool.rs", "src/thread_pool.rs", "src/batcher.rs", "src/store/store.rs"],
  [("reordering buffer", "SequentialThreadPool::next"), ("batching", "Batcher::next"), ("work queue", "ThreadPool::new")])
p("S07", "Blocks enter an index only on top of its last block, header and content together",
  "A block is appended to an index only if its previous-block hash equals the hash of the index's last block (any block may be first); otherwise the process stops. The block's header and all its transactions, in block order, are applied together.",
  ["inputs", "histories"], "every sequence of blocks offered to an index",
  NOTEST + "only non-linking blocks would show it.",
  ["src/store/store.rs", "src/store/transaction_store.rs"],
  [("header check", "Store::add_block_header"), ("block application", "Store::add_block, TransactionStore::add_block")])

# ---------------------------------------------------------------- persistence
p("P01", "A saved index loads back identical",
  "Loading reads exactly the sequence of fields saving wrote, in the same widths and byte order, and puts every one back where it came from: every header's two hashes in chain order, and every unspent output's hash, index, value and optional address. The saved counts are the numbers of records that follow.",
  ["inputs", "histories"], "every index content, including outputs without address and empty indexes",
  NOTEST + "round trip must hold for all contents; static analysis decides the agreement of writer and reader field by field.",
  ["src/store/store.rs", "src/store/transaction_store_backend.rs", "src/buffer_writer.rs", "src/hashing_buffer_reader.rs", "src/address.rs"],
  [("writer", "IndexedStore::to_writer, IndexedTransactionStoreBackend::to_writer"), ("reader", "IndexedStore::from_reader, IndexedTransactionStoreBackend::from_reader")])
p("P02", "A crash during a save never damages the previously saved index",
  "Saving never truncates or overwrites the saved index in place: the complete new contents are first written to a different file in the same directory and synced to disk, and only then renamed over the old one. Any failure on the way stops the process before the old file is replaced.",
  ["crash_points", "fault_sequences"], "a crash or I/O failure at any point of a save",
  "No test saves an index, and tests cannot crash at every point.",
  ["src/store/store.rs"], [("atomic replace", "IndexedStore::to_file")])
p("P03", "Every fold of blocks into the index is followed by a save of the index",
  "After blocks have been folded into the durable index, a save of the index to the configured file is triggered, and only then (plus once after the initial build, before anything else starts). The index is loaded at start from the same configured file.",
  ["histories", "configurations"], "every sequence of updates during the life of the process",
  "No test runs the update loop.",
  ["src/main.rs", "src/state.rs"],
  [("update result drives the save channel", "main, State::apply_update, State::write")])

# ---------------------------------------------------------------- chain tracking
p("T01", "The unfolded tail follows the node's chain and rolls back reorganisations",
  "A block fetched from the node joins the tail only if its previous-block hash equals the hash of the current tip (last tail block, or the index's last block when the tail is empty); otherwise exactly one block is removed from the end of the tail and fetching continues at the new next height. A reorganisation reaching below the tail stops the process rather than diverging silently.",
  ["histories", "inputs"], "every sequence of blocks, including reorganisations of any depth, that the node may report",
  "No test feeds blocks to the tracker.",
  ["src/last_blocks.rs"], [("tail maintenance", "BlockUpdater::{add_block,last_block_hash,height,next_block,update}")])
p("T02", "Only blocks with the configured confirmations are folded, oldest first",
  "Blocks leave the tail for the durable index oldest first, and only while the tail is longer than the configured confirmations minus one. The initial build likewise indexes all but the last confirmations-minus-one blocks of the chain found in the block files, and refuses to build from a chain shorter than the configured confirmations.",
  ["histories", "configurations"], "every tail length, confirmation setting and chain length",
  "No test reaches it, and it depends on lengths tests would have to enumerate.",
  ["src/last_blocks.rs", "src/main.rs", "src/state.rs"], [("fold threshold", "LastBlocks::pop"), ("initial build", "main")])
p("T03", "A query with c confirmations sees exactly the blocks at least c deep",
  "A query asking for c confirmations is answered from the index plus the tail blocks that have at least c confirmations, and includes mempool transactions exactly when c is zero. When no tail block is that deep it sees the index alone.",
  ["inputs", "histories"], "every confirmation count up to the maximum and every tail",
  "No test runs a query.",
  ["src/last_blocks.rs", "src/state.rs"], [("overlay construction", "LastBlocks::{augmentation,augmentations,last_augmentation}"), ("overlay choice", "State::augmented_store")])
p("T04", "Mempool view is refreshed first and admits only spendable transactions",
  "Each update replaces the mempool by the node's current list in the node's order (fetching what is unknown, dropping what is gone) before looking for new blocks, so a transaction mined meanwhile is never missed. A mempool transaction enters the view only if every output it spends is available in the view at that point.",
  ["histories", "schedules"], "every mempool content and every interleaving of the node's mempool and chain with an update",
  "No test talks to a node.",
  ["src/last_blocks.rs", "src/store/transaction_store.rs", "src/state.rs"], [("mempool refresh", "LastBlocks::update_mempool"), ("admission", "TransactionStore::can_add_transaction, LastBlocks::augmentation")])
p("T05", "Overlays and index always move by the same blocks",
  "When blocks are folded, the new overlays are computed on top of the index including exactly the blocks that are then folded, in the same order, and the new overlays are installed in the same exclusive step as the fold. When no new block arrived and overlays exist, only the overlay containing the mempool is replaced; otherwise all are. One update is finished before the next begins.",
  ["histories"], "every update, with and without new blocks, with and without folding",
  "No test runs an update.",
  ["src/state.rs"], [("update computation and application", "State::{compute_update,apply_update}")])

# ---------------------------------------------------------------- concurrency
p("L01", "Every answer comes from one consistent snapshot of index and overlays",
  "While a query reads the index or an overlay it holds shared access to both at once, from choosing the overlay to reading the last value, and for all addresses of a multi-address request. An update changes either only while holding exclusive access to the overlays, across replacing the overlays and folding the blocks.",
  ["schedules"], "every interleaving of queries with updates and saves",
  "Tests run no concurrent queries; the property quantifies over schedules.",
  ["src/state.rs"], [("lock scopes", "State::{balance,balance_array,iterate_transaction_outputs,transaction_outputs_array,apply_update}")])
p("L02", "Queries, updates and saves cannot deadlock",
  "The locks are always acquired in one global order, none is acquired again by a task already holding it, and no thread-blocking lock is held across an asynchronous wait.",
  ["schedules"], "every interleaving of queries, updates and saves",
  "Deadlocks need particular interleavings; no test creates any.",
  ["src/state.rs", "src/thread_pool.rs"], [("lock order", "State methods")])
p("L03", "Queries are never blocked by saving the index or by talking to the node",
  "No lock is held exclusively that queries need while the process waits for the node or saves the index to disk. While the index is being saved no blocks are folded into it (updates go on without folding), so a query never has to wait for a save to finish.",
  ["schedules"], "every interleaving of saves, updates and queries",
  "It takes a query that arrives while a save is in progress and an update is due.",
  ["src/state.rs"], [("save/fold exclusion", "State::{write,update,compute_update}")])

# ---------------------------------------------------------------- decoding
p("D01", "Transaction id covers exactly the non-witness serialization",
  "A decoded transaction's id is the double SHA-256 of exactly its version, inputs (previous hash, index, script, sequence), outputs (value, script) and lock time, including the counts and lengths, in serialized order. Segregated-witness marker, flag and witness data never contribute.",
  ["inputs"], "every serialized transaction, with and without witness data",
  "No test decodes a transaction.",
  ["src/transaction.rs", "src/hashing_buffer_reader.rs"], [("decoder", "Transaction::from_reader"), ("hasher", "Hasher")])
p("D02", "Transactions are decoded by the full Bitcoin grammar",
  "Decoding consumes exactly the bytes of one transaction: version, optional marker and flag, as many inputs and outputs as announced, one witness stack per input when the flag's low bit is set, and lock time. Every input yields its previous hash and index and every output its value and script, in order.",
  ["inputs"], "every serialized transaction",
  "No test decodes a transaction.",
  ["src/transaction.rs"], [("decoder", "Transaction::from_reader")])
p("D03", "Primitive decoding: widths, byte order, compact sizes, cursor",
  "Each primitive read takes exactly its width from the cursor, in little-endian order, advances the cursor by exactly that many bytes and feeds exactly those bytes to the hasher if one is given. A compact size is the first byte itself up to 252, and for 253, 254 and 255 the following 2, 4 and 8 bytes; a length-prefixed buffer is exactly as long as announced.",
  ["inputs"], "every buffer position and every prefix byte",
  "No test reads a primitive.",
  ["src/hashing_buffer_reader.rs"], [("reader", "HashingBufferReader")])
p("D04", "Blocks: header hash, linkage and every transaction are decoded",
  "A block's hash is the double SHA-256 of its first 80 bytes and its previous-block hash is bytes 4 to 35 of it. Decoding a block yields exactly the announced number of transactions following the header, in order, each decoded and delivered once.",
  ["inputs"], "every serialized block",
  "No test decodes a block.",
  ["src/block.rs", "src/block_file_reader.rs"], [("header", "BlockHeader::from_buffer"), ("transactions", "iterate_transactions, BlockTrait::transactions")])
p("D05", "Block-file scan finds every block and its exact byte range",
  "Scanning a block file yields every record until the end of the file or its zero padding: each block's contents start 8 bytes after its record and span exactly the announced length, the next record starts right behind it, and a record with a wrong network magic stops the process. Every file named blkNNNNN.dat in the directory, and no other, is scanned.",
  ["inputs"], "every block file, including one ending in fewer padding bytes than a record header",
  "No test scans a file.",
  ["src/block_file_reader.rs"], [("scan", "BlockFileReader::{scan_block_file,scan_block_files,file_names}, FileBlock::transactions")])
p("D06", "The chain built from block files is linked from genesis to its tip",
  "The blocks selected from the files, in order, start at a block whose previous hash is all zeros, each next one's previous hash is the hash of the one before, and each carries its height counted from zero. A block stored more than once in the files is considered once.",
  ["inputs"], "every set of blocks in any file order, with forks, orphans and duplicates",
  "No test builds a chain.",
  ["src/block_file_reader.rs"], [("chain selection", "BlockFileReader::find_longest_chain")])

# ---------------------------------------------------------------- addresses and text codecs
p("A01", "Scripts are classified as P2PKH or P2SH exactly",
  "A script is attributed to a P2PKH address exactly when it is 25 bytes 76 A9 14 <20 bytes> 88 AC, and to a P2SH address exactly when it is 23 bytes A9 14 <20 bytes> 87; the address holds exactly those 20 bytes. Every other script has no address.",
  ["inputs"], "every script of every length",
  "No test classifies a script.",
  ["src/address.rs"], [("classification", "Address::from_script")])
p("A02", "Address bytes and address kinds map one-to-one",
  "The 21-byte form of an address is version byte 0 for P2PKH and 5 for P2SH followed by the 20-byte hash, and parsing accepts exactly those two versions at exactly that length, giving back the same kind and hash. The text form is the Base58Check encoding of that form, and two addresses are equal exactly when kind and hash are.",
  ["inputs"], "every address and every byte string",
  "No test covers addresses.",
  ["src/address.rs"], [("conversions", "Address::{from_slice,to_vec,from_string,to_string}")])
p("A03", "Address text with a wrong checksum is never accepted",
  "Base58Check decoding succeeds only when at least four bytes were decoded and the last four equal the first four bytes of the double SHA-256 of all bytes before them, and it then returns exactly those bytes before them. Encoding appends that same checksum.",
  ["inputs"], "every input text",
  "No test covers Base58Check.",
  ["src/base58_check/decode.rs", "src/base58_check/encode.rs", "src/base58_check/checksum.rs", "src/address.rs"],
  [("verification", "base58_check::Decoder::decode_into, verify_checksum, compute_checksum")])
p("A04", "Text codecs use the standard alphabets and invert them exactly",
  "Base58, Base64 and hexadecimal text use exactly the standard alphabets; each character decodes to the value it encodes, hexadecimal in either case, and every byte that is not in the alphabet (non-ASCII included) is reported as an error, never mapped to a value.",
  ["inputs"], "all 256 byte values in every position",
  "The tests sample a few valid strings.",
  ["src/base_common/alphabet.rs", "src/base58/mod.rs", "src/base64/mod.rs", "src/hex.rs", "src/base58/decode.rs", "src/base_binary/decode.rs"],
  [("tables", "Alphabet, base58::ALPHABET, base64::ALPHABET, hex::TABLE, hex::value")])
p("A05", "Hashes are byte-reversed exactly at the text boundary",
  "Every transaction id or block hash that leaves the process as text (HTTP answers, requests to the node) is the byte-reversed hexadecimal of the internal hash, every one that enters as text is reversed back, and raw block and transaction data is never reversed.",
  ["inputs"], "every place a hash crosses the text boundary",
  "The tests check the codec, not where it is used.",
  ["src/client.rs", "src/create_server.rs", "src/reverse_hex.rs"], [("boundary conversions", "Client methods, format_utxo")])
p("A06", "Unchecked text construction only ever sees ASCII",
  "Whatever the input, every byte that reaches an unchecked bytes-to-text conversion comes from an ASCII encoding table or is an ASCII constant, so no invalid text is ever constructed.",
  ["inputs"], "every input of every encoder",
  "Tests sample a few inputs; undefined behaviour on others would go unnoticed.",
  ["src/hex.rs", "src/base58/encode.rs", "src/base_binary/encode.rs"], [("encoders", "hex::encode_iterator, base58::Encoder::encode, base_binary::Encoder::encode")])
p("A07", "Text codecs respect the caller's buffer",
  "Decoding and encoding into a caller-supplied buffer write only within it, report a buffer that is too small as an error instead of panicking or truncating, return exactly the number of bytes produced, and do not depend on what the buffer held before.",
  ["inputs"], "every input and every buffer length and content",
  "The tests use one large-enough zeroed buffer.",
  ["src/hex.rs", "src/base58/decode.rs", "src/base58/encode.rs", "src/base_binary/encode.rs", "src/base_binary/decode.rs"], [("bounded writes", "decode_into/encode_into")])
p("A08", "Base58 and Base64 encode and decode are mutual inverses",
  "Decoding an encoded byte string gives the same bytes, for Base58, Base58Check, Base64 and hexadecimal: Base58 text is the value of the bytes in base 58 with one leading zero character for each leading zero byte, Base64 and hexadecimal text their bits in order, and the decoders invert exactly this.",
  ["inputs"], "every byte string", "The tests sample a dozen strings.",
  ["src/base58/encode.rs", "src/base58/decode.rs", "src/base_binary/encode.rs", "src/base_binary/decode.rs", "src/hex.rs"], [("conversion loops", "encode_into/decode_into of base58 and base_binary, hex::decode_into, hex::encode")])

# ---------------------------------------------------------------- HTTP
p("H01", "Malformed requests get an error answer, never a panic",
  "Every completely received request is answered: a malformed or missing address, address list, JSON body or confirmation count yields status 400 with a JSON object holding a message, and an unknown path or method yields 404. No value taken from the request can make the handler panic.",
  ["inputs"], "every request path, query string and body",
  "No test sends a request.",
  ["src/create_server.rs", "src/server.rs", "src/address.rs", "src/base58/decode.rs", "src/base58_check/decode.rs"], [("request parsing", "create_server handlers, Router::route")])
p("H02", "Every endpoint validates the requested confirmations",
  "Each balance and utxo endpoint answers with the confirmation count given in the request's confirmations parameter, zero if absent; a value that is not a number or exceeds the configured confirmations is refused with status 400 before any data is read.",
  ["inputs"], "every endpoint and parameter value",
  "No test sends a request.",
  ["src/create_server.rs", "src/state.rs"], [("validation", "parse_confirmations and its callers")])
p("H03", "Endpoints: each path and method answers with its own kind of data",
  "GET on /addresses/{address}/balance, /addresses/{address}/utxos, and GET and POST on /addresses/balance and /addresses/utxos are served; balance paths answer with balances and utxo paths with unspent outputs. GET takes the address list from the addresses parameter and POST from the JSON body; nothing else is served.",
  ["inputs"], "every method and path",
  "No test sends a request.",
  ["src/create_server.rs", "src/server.rs"], [("routes", "create_server"), ("matching", "Router::route, DynamicUri")])
p("H04", "Multi-address answers have one entry per requested address, in order",
  "A multi-address request is answered with exactly one entry per requested address, in request order, each labelled with its address and holding that address's own balance or outputs at the requested confirmations.",
  ["inputs"], "every address list, including duplicates and addresses without outputs",
  "No test sends a request.",
  ["src/state.rs", "src/create_server.rs"], [("array queries", "State::{balance_array,transaction_outputs_array}, get_balance_array, get_utxos_array")])
p("H05", "The address in the path decides the answer",
  "On a single-address endpoint the answer is for the address named in the path; no query parameter can substitute another one. Every output the listing of that address delivers goes into the answer.",
  ["inputs"], "every combination of path and query string",
  "No test sends a request.",
  ["src/server.rs", "src/create_server.rs"], [("parameter binding", "Router::route")])
p("H06", "Balances are the sums of the listed outputs, in the documented format",
  "The balance of an address is the sum of the values of exactly the outputs the utxo listing shows for the same address and confirmations. Amounts are reported in bitcoin (satoshis divided by 1e8) and each listed output shows its own transaction hash, output index and value.",
  ["inputs", "histories"], "every address and index content",
  "No test sends a request.",
  ["src/store/transaction_store_backend_trait.rs", "src/store/transaction_store.rs", "src/create_server.rs", "src/state.rs"], [("balance", "ReadonlyTransactionStoreBackendTrait::balance"), ("format", "format_value, format_utxo")])

# ---------------------------------------------------------------- node client, lifecycle
p("R01", "Only the node's not-found answers are treated as absence",
  "A node error is treated as 'no such transaction' only for code -5 on a transaction lookup and as 'no such block yet' only for code -8 on a height lookup; every other node error, unexpected status, transport failure or malformed answer stops the process instead of being taken for an answer. What is interpreted is the node's complete answer: every piece of it, once and in order.",
  ["inputs", "fault_sequences"], "every error code, status and malformed answer the node can give",
  "No test talks to a node.",
  ["src/client.rs"], [("error discrimination", "Client::{request,getrawtransaction,getblockhash,getblock,getrawmempool}")])
p("R02", "Node credentials are never disclosed",
  "The node user name and password (plain or encoded) flow only into the authorization header of requests to the node: never into log output, panic messages, HTTP answers or the saved index.",
  ["inputs", "configurations"], "every configuration and every run",
  "Tests do not look at output.",
  ["src/client.rs", "src/configuration.rs", "src/main.rs"], [("credential flow", "Client::new, Client::request, Configuration")])
p("R03", "A failed background task stops the process",
  "If the initial update, the update loop, the save loop or the HTTP server ends in a panic, the process ends too instead of continuing to serve stale data: each runs as a joined task whose failure is delivered to, and re-raised by, the main thread.",
  ["fault_sequences", "schedules"], "a failure of any background task at any time",
  "No test runs the tasks.",
  ["src/executor.rs", "src/main.rs"], [("failure propagation", "Executor::{spawn_runtime,join}")])
p("R04", "Requests are served only after index and overlays are complete",
  "The HTTP server and the update loop start only after the index has been loaded or built and saved and a first complete update has finished successfully.",
  ["schedules", "histories"], "every start-up",
  "No test starts the program.",
  ["src/main.rs", "src/executor.rs"], [("start-up order", "main")])
p("R05", "Every setting comes from its own environment variable",
  "Each documented environment variable determines exactly the setting it names and that setting is used for that purpose (host/port of the HTTP server, node host/port/user/password, paths, threads, batch size, confirmations, update interval in milliseconds). A malformed value or missing mandatory variable stops the process; only HOST, PORT, UPDATE_INTERVAL and CONFIRMATIONS have defaults (127.0.0.1, 8000, 1000, 6).",
  ["configurations"], "every environment",
  "No test reads a configuration.",
  ["src/configuration.rs", "src/main.rs"], [("configuration", "Configuration::new and accessors, main")])
p("R06", "The index's fast hash is consistent with equality and total",
  "Equal outpoints and equal addresses always hash equally and every key the index uses can be hashed without a panic; distinct keys are told apart by full equality, never by their hash.",
  ["inputs"], "every outpoint and address",
  "No test uses the hash map.",
  ["src/hashmap.rs", "src/address.rs", "src/transaction_output.rs"], [("hasher", "U64Hasher, U64HashMap")])
p("R07", "Logging can neither stop nor influence the service",
  "Writing a log line never fails for any clock reading, counter or message (the system clock being set back included) and changes nothing but the logger's own line counter: composing a message calls nothing that can fail or that changes the index, the overlays or the caller's progress, so neither the log interval nor whether a line is written influences what is computed. (A standard output that cannot be written to is outside this property.)",
  ["inputs", "fault_sequences"] , "every clock reading and every point at which a line is written",
  "No test sets the clock, and none compares a run with and without its log lines.",
  ["src/logger.rs", "src/chronometer.rs", "src/store/store.rs", "src/store/transaction_store_backend.rs"], [("elapsed time", "Chronometer::elapsed"), ("log lines", "Logger::log, PartialLogger::log and the closures given to it")])
p("R08", "Each lookup is the node call it stands for, sent to the configured node",
  "Every request to the node is an HTTP POST to http://host:port of the configured node, authorized as the configured user and password (Basic, Base64 of user:password exactly as configured), whose body is one JSON-RPC 1.x call of the method and parameters asked for; the mempool is listed and transactions and blocks are fetched in the plain form the service reads (transaction by its id, block by its hash, block hash by exactly the height asked for).",
  ["inputs", "configurations"], "every user name, password, host, port, height and hash",
  "No test talks to a node, and a fake node would not check the credentials of every length or every height.",
  ["src/client.rs", "src/configuration.rs", "src/main.rs"], [("requests", "Client::{new,request,getrawmempool,getrawtransaction,getblockhash,getblock}")])
p("R09", "Updating, saving and serving go on for as long as the process runs",
  "After the start the node is asked for news in every round of the update loop and the loop never ends, the save task keeps taking triggers until the update loop is gone, and the server serves without a bound of its own; none of the three ends other than by a failure (which stops the process). Once the node's first answer has been taken in, saving and serving are started.",
  ["histories", "configurations", "schedules"], "every length of run, every configuration and every outcome of the rounds before",
  "No test runs the tasks, and a test could only watch the first few rounds.",
  ["src/main.rs", "src/server.rs"], [("tasks", "main"), ("server", "Server::run")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")
