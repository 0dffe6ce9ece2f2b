#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that wording stays reviewable).
import json, os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
N="src/frn/lib/net/"
p("C01","Every pair of parties has a lossless, in-order, exactly-once byte stream",
 "On a connected network, what a party receives from a peer (or from itself) is exactly the concatenation, in order and without loss, duplication or alteration, of what that peer sent to it, and nothing that was sent to or by anyone else. Receives may split or join the sender's messages in any way, and bytes, field elements, shares and broadcasts share the one stream; a send never blocks on the receiver. This holds whether sending and receiving happen on one thread or on two.",
 ["schedules","fault_sequences","inputs"],"every interleaving of callers and background sender threads, every fragmentation of reads and writes, interrupted system calls, full socket buffers and link delays; any message sizes (including empty) and any receive segmentation",
 "The tests send one 4-byte message per pair (plus one field element per multiplication) on an idle loopback, so a partial read or write, a full socket buffer, EINTR or a preempted sender thread never happens.",
 [N+"channel.h",N+"channel.cc",N+"connector.h",N+"connector.cc",N+"shared_deque.h",N+"network.h","src/frn/tcp_network.h"],
 [("asynchronous sender thread draining a queue per peer",N+"channel.cc AsyncSenderChannel::Open"),("loops over partial writes/reads",N+"connector.cc TCPConnector::Send/Recv"),("queue-backed local channel",N+"connector.h LocalConnector"),("typed encoding","src/frn/tcp_network.h Send/Recv/SendShares/RecvShares/SendBytes/RecvBytes")],
 [("send queue","messages accepted but not yet written",N+"channel.h mSendQueue")],["return values of RecvBytes/Recv/RecvShares/RecvFrom","bytes on the simulated wire"])
p("C02","Connecting succeeds and links the right parties, whatever the start order",
 "If every party of a network calls Connect, each in its own time and order, every call returns within a bounded time after the last party started, and afterwards channel j of party i leads to party j's channel i and to nothing else. Refused connection attempts are retried until the peer is up, and networks on disjoint port ranges or on different hosts do not interfere. A network whose ports do not all exist is refused when it is built instead of never connecting.",
 ["schedules","fault_sequences","configurations"],"every start order and start delay, refused and slow connection attempts, interrupted connect/accept calls, 2 to 8 parties, local or listed addresses, any base port, several networks at once",
 "The tests start all parties within microseconds of each other on one host, with one network per port range, and with two party counts.",
 [N+"connector.cc",N+"builder.cc",N+"network.h","src/frn/tcp_network.h"],
 [("client retries with a sleep",N+"connector.cc TCPClientConnector::EstablishConnection"),("one listening socket per higher-numbered peer",N+"connector.cc TCPServerConnector::EstablishConnection"),("port assignment and client/server roles",N+"builder.cc Build/create_tcp_channels")],None,["Connect returning","identities exchanged over every channel afterwards"])
p("C03","Closing a network delivers everything sent before it, and always returns",
 "When a party that has received everything its peers send it closes its network, nothing it sent is lost: every byte sent before Close reaches a peer that keeps reading, however much of it was still queued. Close itself returns within a bounded time once the peers have read what was sent to them, and after all of it each peer sees the end of the stream.",
 ["schedules","fault_sequences","inputs"],"every interleaving of Close with the background sender threads, full socket buffers, slow or late readers, fragmentation, interrupted calls, any amount of queued data",
 "Tests join every party before closing any network, so nothing is ever queued when Close runs.",
 [N+"channel.cc",N+"channel.h",N+"network.h",N+"connector.h"],
 [("shutdown handshake between Close and the sender thread",N+"channel.cc AsyncSenderChannel::Close/Open")],[("send queue","undelivered messages at Close",N+"channel.h mSendQueue")],["data received by peers after the sender closed","Close returning"])
p("C04","Losing a peer is reported and never produces made-up data",
 "A receive returns normally only with bytes the peer really sent: if the peer crashes, or closes, or the connection is reset before enough data has arrived, the receive fails with an error instead of returning. It does so within a bounded time after the connection ended, and data that did arrive before the end can still be read first.",
 ["crash_points","schedules","fault_sequences"],"a crash (with orderly or abortive connection teardown, losing any suffix of the data in flight) of any party at any point, or an early Close, under every interleaving and fragmentation",
 "No test ends a connection while data is outstanding.",
 [N+"connector.cc",N+"channel.h","src/frn/tcp_network.h"],
 [("end-of-stream and error handling in the receive loop",N+"connector.cc TCPConnector::Recv"),("error state and exception",N+"connector.h set_error_and_throw")],None,["return value or exception of RecvBytes/Recv/RecvShares"])
p("C05","A closed or crashed session leaves nothing behind and can be re-established",
 "After Close returns, a party holds no open socket and no running thread that the network created, including the sockets used only while connecting. A new network on the same ports can therefore be connected and used again, any number of times, in the same processes after a Close or in fresh ones after a crash.",
 ["histories","schedules","crash_points"],"any number of connect/use/close rounds with rounds of different parties overlapping, and crash of all parties at any point followed by a restart at different times",
 "Each test uses fresh ports and one session per process and never counts descriptors or threads.",
 [N+"connector.cc",N+"connector.h",N+"channel.cc",N+"network.h"],
 [("closing of connection and listening sockets",N+"connector.cc TeardownConnection, TCPServerConnector::EstablishConnection"),("address reuse options",N+"connector.cc TCPServerConnector::EstablishConnection"),("joining the sender thread",N+"channel.cc Close")],None,["descriptor table and thread list of each simulated process after Close"])
p("C06","The shared queue is a linearizable blocking FIFO, and transport is race-free",
 "The queue between threads behaves as one atomic first-in-first-out queue: concurrent pushes, reads of the front, pops and size queries are consistent with some sequential order, every pushed item comes out exactly once, and a thread waiting for an item continues once one is available (spurious wake-ups included). Neither the queue nor a channel used by its caller and its background thread has a data race.",
 ["schedules","histories"],"every interleaving, down to single memory accesses, of several producers, one reading consumer or several popping consumers, and size observers",
 "No test touches the queue directly or varies thread interleaving.",
 [N+"shared_deque.h",N+"channel.cc",N+"channel.h"],
 [("mutex and condition variable around a deque",N+"shared_deque.h")],[("mDeck","queued items",N+"shared_deque.h")],["returned items and sizes with invocation/response order","conflicting accesses without a happens-before edge"])
p("C07","Secure multiplication yields consistent shares of the exact products",
 "For any batch of pairs of shared values, and any sequence of prepare-and-run batches on one protocol object, the i-th share each party obtains from a run belongs to one consistent sharing of the product of the i-th pair of that batch. Every party gets exactly one output per prepared pair, for every admissible party count and every consistent distribution of the correlated-randomness keys.",
 ["inputs","schedules","histories","configurations"],"party counts 4 to 10, batches of any size including empty and repeated runs, any field values, default or freshly dealt correlation keys, every interleaving and network delay or fragmentation",
 "Both multiplication tests multiply a single pair with 7 parties and default keys, so batching, repetition and other party counts are never exercised.",
 ["src/frn/mult.h","src/frn/mult.cc","src/frn/corr.h","src/frn/corr.cc","src/frn/shr.cc","src/frn/lib/secret_sharing/rep.h"],
 [("local products to additive shares minus random share","src/frn/mult.h MultiplyToAddAndMsgs"),("king opens, all parties adjust random share","src/frn/mult.cc SendStep/ReconstructionStep/OutputStep"),("double random shares","src/frn/corr.cc GenRandomShare")],
 [("mRandomShares","random share used for each pending multiplication","src/frn/mult.h")],["shares returned by Run at every party"])
p("C08","The input protocol gives all parties consistent shares of each party's inputs",
 "After setup and a run of the input protocol in which any parties contribute any numbers of values and all parties expect the matching numbers, every party holds, for every contributor and in the order contributed, its share of a consistent sharing of exactly the contributed value. Contributors and receivers may announce their inputs in any relative order, and the input phase may be repeated on the same object.",
 ["inputs","schedules","histories","configurations"],"party counts 4 to 10, any subset of contributors, any number of values each, any seeds, any announcement order, every interleaving and network delay or fragmentation",
 "The only end-to-end input test contributes one value from one party with four parties.",
 ["src/frn/input.h","src/frn/input.cc","src/frn/input_corr.h","src/frn/input_corr.cc","src/frn/lib/secret_sharing/additive.h"],
 [("keys shared once, masks expanded from them","src/frn/input_corr.cc InputSetup::Run"),("mask and mask-share streams in lock step","src/frn/input_corr.h GetMask/GetMaskShare"),("masked value sent to all","src/frn/input.cc Run")],
 [("mask stream positions","one per contributor, equal at all parties","src/frn/input_corr.h Correlator")],["shares returned by Run at every party"])
p("C09","A distributed computation equals the same computation in the clear",
 "When the parties jointly evaluate an arithmetic circuit (inputs from several parties, local additions, subtractions and constant operations on shares, and layers of secure multiplications) and open the results to each other, every party obtains the values that evaluating the circuit directly over the field would give. No interleaving, delay or slow party changes a result or keeps the computation from finishing.",
 ["programs","schedules","fault_sequences","inputs"],"random circuits with inputs, linear operations, constants and up to several multiplication layers, 4 to 7 parties (10 in thorough), every interleaving, stalls, fragmentation and delays",
 "Tests exercise each operation once in isolation with fixed operands; nothing composes inputs, local operations, multiplication and opening.",
 ["src/frn/shr.h","src/frn/shr.cc","src/frn/mult.cc","src/frn/input.cc","src/frn/tcp_network.h","src/frn/lib/secret_sharing/rep.h"],
 [("local share arithmetic","src/frn/shr.cc"),("multiplication protocol","src/frn/mult.cc"),("input protocol","src/frn/input.cc"),("opening with consistency check","src/frn/lib/secret_sharing/rep.h ErrorDetection")],None,["opened values at every party compared with a reference evaluation"])
p("C10","Failures during a computation never make a surviving party output a wrong share",
 "If processes crash, memory allocation fails or connections break at any moment of a computation, every party that still reports a result reports exactly the result of the undisturbed computation, and results of different survivors belong to one consistent sharing. A party that cannot complete ends with an error; after process crashes nobody is left waiting forever.",
 ["crash_points","fault_sequences","schedules"],"crash of one or more parties, a failing allocation, a failing write or a reset connection at any point of connect, setup, input, multiplication, check or close, under every interleaving",
 "No test injects any failure.",
 [N+"connector.cc",N+"channel.cc","src/frn/mult.cc","src/frn/input.cc","src/frn/input_corr.cc","src/frn/tcp_network.h"],
 [("errors surface as exceptions from receives",N+"connector.cc"),("no defaulted data in protocol steps","src/frn/mult.cc, src/frn/input.cc")],None,["results (or errors) of surviving parties against an undisturbed reference execution"])
p("C11","Reported communication equals the traffic, and protocols send what they should",
 "The communication summary of each party states, per peer, exactly the number of payload bytes it sent and received, so what i reports as sent to j is what j reports as received from i and what crossed the network. The volume is the protocol's: in a multiplication batch each of the first 2d+1 parties sends one element per product to the first party, which sends one per product to each of the first n-d parties; an input costs one share of a key per pair at setup plus one element per value and recipient.",
 ["schedules","inputs","histories"],"any mixture of transport use, inputs, multiplications and checks, every interleaving and fragmentation, 4 to 10 parties",
 "Tests print the summary but never look at it.",
 ["src/frn/tcp_network.h","src/frn/mult.cc","src/frn/input.cc","src/frn/input_corr.cc","src/frn/exp_mult.cc"],
 [("per-peer counters","src/frn/tcp_network.h Summary"),("message pattern","src/frn/mult.cc, src/frn/input.cc")],[("mSent/mRecv","bytes per peer","src/frn/tcp_network.h Summary")],["printed summary","bytes on the simulated wire"])
p("C12","Verification records of multiplications are complete and consistent",
 "After any sequence of multiplication batches, every party's verification record has exactly one entry per multiplication and its counter is that number. The entries agree across parties: what the first party recorded as received from each party is what that party recorded as sent and put on the wire, all parties that take part in opening recorded the same opened value, and the recorded message shares form consistent degree-2d sharings that add up to the product.",
 ["histories","schedules","inputs"],"any number of batches of any size, on one protocol object or on several sharing one record, 4 to 8 parties, every interleaving and fragmentation",
 "The check test only checks that nothing crashes, for a single multiplication.",
 ["src/frn/mult.h","src/frn/mult.cc","src/frn/check.h","src/frn/shr.cc"],
 [("appending of check data in Prepare, SendStep, OutputStep, Run","src/frn/mult.h, src/frn/mult.cc"),("message shares per party","src/frn/mult.h MultiplyToAddAndMsgs")],[("CheckData","record of one party","src/frn/mult.h")],["CheckData fields at every party"])
p("C13","The check exchange completes and delivers exactly the missing shares",
 "After any number of multiplications all parties complete the check protocol and nothing sent in it is left unread. In it, each party is sent, once, the compressed (randomly combined) message value of every additive share it does not hold and of no other, so that together with its own shares it can reconstruct every combined message, which equals the same random combination of the individual messages.",
 ["schedules","inputs","configurations"],"any number of multiplications (including none), 4 to 7 parties, any inputs, every interleaving, fragmentation and delay",
 "The only test runs one multiplication and asserts nothing.",
 ["src/frn/check.h","src/frn/shr.cc","src/frn/shr.h"],
 [("compression with random coefficients","src/frn/check.h PrepareMsgs"),("reconstruction table","src/frn/shr.cc Init"),("length-prefixed exchange","src/frn/check.h ReconstructMsgs")],[("mTableRec","who must be sent which share","src/frn/shr.h")],["bytes each party puts on the wire during the check","completion of ReconstructMsgs"])
p("C14","Nothing unmasked leaves a party, and no mask is ever used twice",
 "In a session in which each party uses one object per protocol, every value a party broadcasts for an input, sends to the first party for a multiplication, or that is opened by the first party, is the private value blinded by a non-zero mask, and all masks of the session are different, across values, batches and (for freshly keyed parties) across parties. During input setup no coalition of at most d other parties is sent all the pieces of a party's key.",
 ["histories","inputs","schedules"],"any number of inputs and multiplication batches per session, 4 to 7 parties, any seeds and keys, every interleaving",
 "Tests never look at more than one masked value, so reuse of a mask or a key piece sent to the wrong party is invisible.",
 ["src/frn/input_corr.h","src/frn/input_corr.cc","src/frn/input.h","src/frn/corr.cc","src/frn/mult.h"],
 [("per-key streams advanced for every mask","src/frn/input_corr.h GetMask, src/frn/corr.cc GenRandomShare"),("replicated key distribution","src/frn/input_corr.cc Run")],None,["bytes on the simulated wire, compared with the secrets"])
p("C15","Results do not depend on timing or scheduling",
 "For fixed inputs and seeds, every share, opened value and verification record a party obtains is the same bit for bit in every execution, whatever the thread interleaving, message timing, fragmentation, start order or behaviour of the clock.",
 ["schedules","fault_sequences"],"pairs of executions of one computation that differ in schedule, delays, fragmentation, interrupted calls, spurious wake-ups, start order and clock jumps",
 "Each test runs once under one schedule and compares nothing between runs.",
 [N+"channel.cc",N+"shared_deque.h","src/frn/mult.cc","src/frn/input.cc","src/frn/corr.cc","src/frn/util.h"],
 [("receives are addressed by peer and ordered","src/frn/tcp_network.h"),("deterministic seeded generators","src/frn/lib/primitives/prg.cc")],None,["all outputs of all parties, compared between executions"])
p("C16","An opening with error detection never accepts a value altered by corrupt parties",
 "When a party opens a shared value by collecting everybody's shares and using error detection, then, with at most d parties sending arbitrary or colluding wrong shares, it either gets the correct value or an error; if any collected copy of a share differs from the others it gets an error. With all shares intact it always gets the correct value.",
 ["fault_sequences","inputs","schedules"],"up to d Byzantine senders altering any share components (in agreement or not) or crashing, 4 to 10 parties, any secret, every interleaving and fragmentation",
 "Tests only open intact shares.",
 ["src/frn/lib/secret_sharing/rep.h","src/frn/tcp_network.h"],
 [("comparison of all copies of each additive share","src/frn/lib/secret_sharing/rep.h ErrorDetection")],None,["value or exception of ErrorDetection at each reader"])
p("C17","The experiment programs complete at every party and report their work",
 "For each of the three experiment programs, any supported party count and any amount of work, starting one process per party in any order leads to every process finishing normally, and each prints the timing of its steps and its communication summary. The summaries of one run agree with each other and with the traffic.",
 ["schedules","fault_sequences","configurations"],"input, multiplication and check experiments, 4 to 7 parties, varying work, every start order, delay, slow process, interleaving and fragmentation",
 "The experiment programs are built but run by no test.",
 ["src/frn/exp_input.cc","src/frn/exp_mult.cc","src/frn/exp_check.cc","src/frn/tcp_network.h","src/frn/util.h",N+"channel.cc"],
 [("program flow","src/frn/exp_*.cc"),("timing macros","src/frn/util.h")],None,["exit status and standard output of each simulated process"])
p("C18","Hashing a stream gives the SHA-3 digest of its bytes however it is fragmented",
 "A digest computed incrementally while data arrives over a connection in fragments is the SHA-3 digest of exactly the bytes received: it is independent of how the stream was cut into updates, equal at sender and receiver, and different as soon as any byte differs.",
 ["fault_sequences","schedules","inputs"],"any stream length and content, any fragmentation caused by the sender's messages, short reads and delays, the three digest lengths",
 "No test uses the hash.",
 ["src/frn/lib/primitives/hash.h","src/frn/util.h"],
 [("partial-word buffering and sponge absorption","src/frn/lib/primitives/hash.h Update/Finalize")],[("mSaved/mByteIndex/mWordIndex","position inside the sponge block","src/frn/lib/primitives/hash.h")],["digest against an independent SHA-3"])
p("C19","The parties' correlated randomness fits together after any history",
 "If the parties' correlators hold one consistent dealing of keys and every party performs the same operations on them, each at its own time, the k-th random sharings fit together: the replicated shares form one consistent sharing, the additive shares of the first 2d+1 parties (all others have zero) add up to its value, and the accompanying replicated shares form a consistent sharing of each additive share. Dummy sharings are such sharings of zero. Copies of a correlator are independent of their original and continue its sequence; otherwise no random value of a dealing is produced twice.",
 ["histories","schedules","configurations"],"any history of random and dummy sharings, copies, assignments, new keys and use by multiplication objects, one or two threads per party, 4 to 12 parties, any threshold below n/3, default keys or keys dealt over the network under delays, fragmentation and stalls",
 "No test looks at the outputs of a correlator; the multiplication tests use one random sharing with default keys.",
 ["src/frn/corr.h","src/frn/corr.cc","src/frn/lib/primitives/prg.h","src/frn/lib/primitives/prg.cc"],
 [("per-key streams advanced in lock step","src/frn/corr.cc GenRandomShare"),("generators per key piece","src/frn/corr.h SetOwnPRGs/SetRandPRGs")],
 [("mOwnPRGs/mRandPRGs","stream position per key piece","src/frn/corr.h")],["outputs of GenRandomShare, GenRandomShareDummy and GenZeroShareDummy at every party"])
# pure functions: not simulation targets
p("C30","Field arithmetic is arithmetic modulo the prime",
 "Addition, subtraction, multiplication, negation, inversion, parsing and serialisation of field elements agree with integer arithmetic modulo 2^61-1 and 2^127-1 for all operands, and inverting zero fails.",
 ["inputs"],"all operands","Tests use a handful of small operands.",["src/frn/lib/math/fp.h","src/frn/lib/math/p.h","src/frn/lib/math/arithmetic.h","src/frn/lib/math/arithmetic.cc"],[("modular reduction","src/frn/lib/math/arithmetic.cc")])
p("C31","Sharing and reconstructing a value is the identity",
 "For every admissible size and threshold, reconstructing the shares of a value returns the value, share serialisation round-trips, and combination lookups are mutually inverse.",
 ["inputs","configurations"],"all values, sizes and thresholds","Tests cover a few sizes and values.",["src/frn/lib/secret_sharing/rep.h","src/frn/lib/secret_sharing/additive.h"],[("combinatorial index tables","src/frn/lib/secret_sharing/rep.h Init")])
p("C32","The pseudorandom generator is AES-128 in counter mode as documented",
 "The n-th block is the encryption under the seed of the documented counter block, requests of any size consume whole blocks, and resetting replays the stream.",
 ["inputs"],"all seeds and request sequences","No test looks at generator output.",["src/frn/lib/primitives/prg.h","src/frn/lib/primitives/prg.cc"],[("AES-NI counter mode","src/frn/lib/primitives/prg.cc")])
p("C33","Vector and matrix operations are the textbook ones",
 "Vector and matrix sums, products, scalings, dot products and serialisations equal their definitions over the field and reject mismatched dimensions.",
 ["inputs"],"all operands and dimensions","No test uses them directly.",["src/frn/lib/math/vec.h","src/frn/lib/math/mat.h"],[("entry-wise loops","src/frn/lib/math/vec.h")])
p("C34","Network configuration errors are rejected before anything is opened",
 "Building a network with a missing or contradictory identifier, size, port, transport or address list throws an error and creates no socket.",
 ["inputs","configurations"],"all builder call sequences","No test exercises invalid configurations.",["src/frn/lib/net/builder.cc"],[("validation in setters and Build","src/frn/lib/net/builder.cc")])
p("C35","Log messages are the format string with arguments substituted in order",
 "Each percent sign of a format is replaced by the next argument, and the level prefix matches the call.",
 ["inputs"],"all formats and arguments","No test checks log output.",["src/frn/lib/logging/logger.h","src/frn/lib/logging/stdout.h"],[("recursive formatting","src/frn/lib/logging/logger.h")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
