TECH = {
 'S01': 'path-sensitive effect analysis over MIR: paired updates of the output map and the listing on every spend/add path',
 'S02': 'loop-exhaustion and effect analysis over MIR of applying a transaction (all inputs before all outputs, written terms compared)',
 'S03': 'path analysis over MIR: a failed strict spend reaches only the abort; dataflow of the strict flag into every constructor',
 'S04': 'truth-table comparison of the path conditions of overlay has/spend and provenance of listed values over MIR',
 'S05': 'effect-order analysis over MIR of the batch backend and of the merge loops',
 'S06': 'channel and ownership dataflow over MIR: numbering, batching, in-order delivery, joins of workers',
 'S07': 'dominance over MIR: header append only under the link equality; header and transactions applied as a pair (call graph)',
 'P01': 'symmetric dataflow over MIR: the writer\'s byte grammar is interpreted by every path of the reader',
 'P02': 'typestate of the save (create temp, write all, sync, rename) on every MIR path, whole-program audit of file effects',
 'P03': 'dominance and message-obligation analysis over MIR: each fold is followed by exactly one save request before the next wait',
 'T01': 'path-sensitive effect analysis over MIR of one fetching round: height, linkage test, push or pop of the tail',
 'T02': 'linear-arithmetic dataflow over MIR of the fold loop and of the initial build\'s cut',
 'T03': 'linear-arithmetic dataflow over MIR of overlay construction and of the overlay index of every query',
 'T04': 'effect-order analysis over MIR of the mempool refresh and of its admission test',
 'T05': 'effect and version analysis over MIR of the update: overlays, folded blocks and installation agree on every path',
 'L01': 'lock-region (guard live range) analysis over MIR including drops and awaits',
 'L02': 'lock-order graph over all acquisitions with held sets, acyclic',
 'L03': 'lock-region analysis against node waits, folds and saves',
 'H01': 'panic reachability over MIR with path facts, and response dataflow of every handler',
 'H02': 'path-sensitive dataflow of the confirmations parameter to every query',
 'H03': 'route-table extraction from MIR and provenance of every answer',
 'H04': 'sequence-preserving loop analysis of request and answer lists over MIR',
 'H05': 'provenance analysis over MIR of the path parameter through the router to the handler',
 'H06': 'loop-invariant sum and term comparison over MIR of balances and listed amounts',
 'R01': 'path-sensitive classification over MIR of node answers into result, absence and abort',
 'R02': 'interprocedural credential taint over terms and types',
 'R03': 'task-handle ownership and failure-propagation analysis over MIR',
 'R04': 'dominance over MIR of start-up events across threads, joins and messages',
 'R05': 'dataflow over MIR from each environment variable to its use',
 'R06': 'impl audit and state dataflow over MIR of the hasher',
 'R07': 'panic reachability and effect analysis over MIR of the logging code and the message closures',
 'R08': 'provenance over MIR of every part of the requests handed to the HTTP client',
 'R09': 'exit analysis over MIR of every path of the three long-running tasks',
 'D01': 'dataflow into the hasher over MIR, byte range for byte range',
 'D02': 'every decode path in MIR parsed against the transaction grammar',
 'D03': 'term-level semantics over MIR of the primitive reads',
 'D04': 'dataflow over MIR of the header bytes and the transaction loop',
 'D05': 'loop-invariant arithmetic over MIR of the scan cursor and the recorded ranges',
 'D06': 'loop and provenance analysis over MIR of the chain selection',
 'A01': 'path conditions of the classifier in MIR compared with the two script forms',
 'A02': 'path conditions and byte terms over MIR of the address forms',
 'A03': 'path-condition entailment over MIR of checksum acceptance',
 'A04': 'constant propagation of the codec tables over all byte values and loop analysis of the codecs',
 'A05': 'dataflow over MIR of hashes across the text boundary, reversal counted on every flow',
 'A06': 'value-set (content) analysis over MIR of every buffer reaching an unchecked text conversion',
 'A07': 'inductive count/bounds analysis over MIR of every write into a caller\'s buffer',
 'A08': 'loop-invariant analysis over MIR of the conversion loops: exact division with remainder, digit by digit, in both directions'}
NOTE = {'*': 'Decides the obligations on every path of the anchored functions (calls inlined, loops by invariant over one iteration), in the compiler\'s MIR of the current source. '
             'Trusted: rustc\'s MIR, the models of std/tokio/hyper/reqwest in engine/models.py, the abstract interpreter; a missing anchor or an unmodelled construct is reported, not skipped.'}
NA = {}
