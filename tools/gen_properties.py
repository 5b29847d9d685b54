#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe or [], "hook_needed": hook}})
F = "src/frn/"; L = F + "lib/"

prop("C01", "Jointly evaluated circuits equal their plaintext evaluation",
 """When all parties evaluate the same arithmetic circuit on privately supplied values (secure inputs, share
 additions and subtractions, operations with public constants, and any number of successive or batched secure
 multiplications), every party ends with shares of every wire, all parties' shares of a wire are mutually consistent,
 and they reconstruct to the value the circuit has in plain field arithmetic.
 This holds for every party count from 4 up and whoever supplies the inputs.""",
 ["programs", "inputs", "configurations"],
 "every circuit of up to 3 gates over input wires of one or several parties; party counts 4..13; operand values from an alphabet with 0, 1, p-1 and large values; layers of up to 16385 products; protocol instances made when needed or all in advance",
 "The tests run one input for n=4 and one multiplication for n=7, and never compose protocols; a circuit chains outputs of one stage into the next.",
 [F+"input.cc", F+"input_corr.cc", F+"mult.cc", F+"mult.h", F+"shr.cc", F+"corr.cc", L+"secret_sharing/rep.h"],
 [("input setup, masked input, batch multiplication, local operations", F+"input.cc, mult.cc, shr.cc")],
 ["Input::Run", "Mult::Run", "ShrManipulator", "Replicator::ErrorDetection"])

prop("C02", "Secure input delivers a consistent sharing of every supplied value",
 """For every set of parties that supply values and every number of values each of them supplies, after one run of the
 input protocol every party holds, per supplier and in the order supplied, exactly one share for each value; the
 parties' shares of a value are consistent and reconstruct to exactly that value. This holds for every party count
 from 4 up, for every seed of the parties' generators, and independently of how preparations for different suppliers are ordered and of whether values are
 prepared one at a time, in lists, or both.""",
 ["inputs", "configurations", "histories"],
 "n=4..13; all vectors of per-party input counts in 0..2 for small n, all counts around round sizes up to 20000 (140000 thorough); all preparation orders for small batches; all divisions of up to 4 values (5 thorough) into single and list calls, at supplier and receivers; several generator seeds",
 "Existing tests reconstruct one value of one party for n=4 only, and only count shares for n=7.",
 [F+"input.cc", F+"input.h", F+"input_corr.cc", F+"input_corr.h"],
 [("mask correlation between the supplier's generators and everybody's generators", F+"input_corr.cc InputSetup::Run"),
  ("masked broadcast and constant addition", F+"input.cc Input::Run")],
 ["InputSetup::Run", "Input::Prepare", "Input::PrepareToReceive", "Input::Run"])

prop("C03", "Secure multiplication yields consistent sharings of all products",
 """For every batch of pairs of shared values, one run of the multiplication protocol gives each party exactly one
 share per prepared pair, in preparation order, such that the parties' shares are consistent and reconstruct to the
 product of that pair. This holds for every party count from 4 up (not only n = 3d+1), any batch size including none,
 any operand values (also when several products use the same shares), any consistent correlated-randomness keys, several batches run one after another
 (also when their protocol objects are all made, or made and prepared, before the first is run), and pairs prepared one at a time, in lists, or both.""",
 ["inputs", "configurations", "histories"],
 "n=4..13 (16 thorough), batch sizes 0..5 and all around round sizes up to 20000 (140000 thorough), eight patterns of shares used repeatedly, operand alphabet squared, default and distinct correlated keys, up to 3 successive batches, all divisions of up to 5 products (6 thorough) into calls",
 "Tests run a batch of exactly one product with all-zero keys for n=7; masks of different products in a batch, other n and other keys are never exercised.",
 [F+"mult.cc", F+"mult.h", F+"corr.cc", F+"shr.cc"],
 [("additive products masked, opened by the first party, added to the random share", F+"mult.cc"),
  ("pairing of each product with its own random share", F+"mult.h Mult::Prepare")],
 ["Mult::Prepare", "Mult::Run"])

prop("C04", "Local share arithmetic is homomorphic",
 """For every party count and threshold with twice the threshold below the party count, and for every sequence of
 additions, subtractions, additions and subtractions of public constants (in either operand order) and multiplications
 by public constants applied by all parties to their own shares, the results are a consistent sharing whose
 reconstruction equals the same expression on the secrets. The same holds for sums, differences and public multiples of double-threshold shares. Operands are never modified.""",
 ["programs", "inputs", "configurations"],
 "all (n,d) with 1<=d, 2d<n, n<=10; all operation sequences up to depth 3 over two shared values and constants from an alphabet",
 "Tests use n=10, one operation at a time and the values 10 and 20.",
 [F+"shr.cc", F+"shr.h"],
 [("constants are applied to a single designated additive share by exactly its holders", F+"shr.cc IndexForConstantOperations")],
 ["ShrManipulator::Add/Subtract/AddConstant/SubtractConstant/MultiplyConstant"])

prop("C05", "Local products give double-threshold and additive sharings of the product",
 """For every party count n and threshold d with 2d < n and all pairs of shared values, the parties' locally computed
 double-threshold shares are a consistent sharing (threshold 2d) of the product, and their locally computed additive
 shares sum to the product over the first 2d+1 parties while every other party's additive share is zero. The
 product position a party reports for a pair of its share elements designates the additive share owned by the
 first n-2d parties holding both elements, and a party outside them reports none.""",
 ["inputs", "configurations"],
 "all (n,d) with 2d<n, n<=10 (13 thorough); unit-vector and alphabet-valued operands; all pairs of share elements",
 "Tests use n=8 with the values 10 and 20, and a few table entries for n=4.",
 [F+"shr.cc", F+"shr.h"],
 [("precomputed multiplication table", F+"shr.cc ShrManipulator::Init")],
 ["MultiplyToDoubleDegree", "MultiplyToAdditive", "ComputeIndexForDoubleMultiplication", "GetTableMult"])

prop("C06", "Replicated sharings reconstruct and are placed as documented",
 """For every party count n and threshold 1 <= t < n, sharing any secret (alone or in a list) gives n shares of
 C(n-1,t) elements each, drawn from C(n,t) additive shares that sum to the secret; element positions correspond
 one-to-one to the (n-t)-subsets of parties in lexicographic order, each held by exactly the parties of its subset, and
 the queries for sizes, subsets, subset indices, index sets and differences agree with that placement; the binomial function they rest on is exact wherever the product of its factors fits its type.
 Reconstruction returns the secret, bytes written from shares read back as the same shares, and invalid parameters are rejected with an exception.""",
 ["inputs", "configurations"],
 "all (n,t) with 1<=t<n<=10 plus all t up to n=13 (16 thorough) for the index structure; secrets and seeds from alphabets; list lengths 0..4 and around round sizes up to 20000; binomials for m up to 70000",
 "Tests construct only (4,1), (7,2), (8,2), (8,4) and (10,3), and never serialize shares or query differences.",
 [L+"secret_sharing/rep.h", L+"secret_sharing/additive.h"],
 [("lexicographic enumeration of subsets and lookup tables", L+"secret_sharing/rep.h Replicator::Init")],
 ["Replicator"])

prop("C07", "Threshold privacy: t shares reveal nothing about the secret",
 """For every party count and threshold t, if the generator's output is uniformly random, the joint distribution of
 any t parties' shares is the same for every secret, for replicated sharings; likewise any n-1 of the n parts of an
 additive sharing. Any t+1 parties jointly hold every additive share.""",
 ["inputs", "configurations"],
 "all random tapes over a tiny prime field (p=2,3,5) for every (n,t) small enough, all coalitions of at most t parties, all secrets; structural coverage for n<=13",
 "A distribution over all random tapes and all coalitions cannot be observed by a test that draws one tape.",
 [L+"secret_sharing/additive.h", L+"secret_sharing/rep.h"],
 [("all but one additive share are fresh generator output", L+"secret_sharing/additive.h ShareAdditive")],
 ["Replicator::Share", "ShareAdditive"])

prop("C08", "Error detection accepts exactly the consistent sharings",
 """Given the shares of all n parties, detection-mode reconstruction returns the secret when all copies of every
 additive share agree, and raises an exception whenever any two copies of the same additive share differ; in particular no change
 made by a set of parties that leaves at least one honest holder of each additive share can make it return a value.""",
 ["inputs", "fault_sequences", "configurations"],
 "n<=7, all t: every alteration of the shares of every coalition of bounded size over a tiny field for small n; every single element and every pair of elements altered by several deltas for larger n",
 "No test feeds an inconsistent sharing to it at all.",
 [L+"secret_sharing/rep.h"],
 [("comparison of all redundant copies", L+"secret_sharing/rep.h ErrorDetection, ComputeRedundantAddShares")],
 ["Replicator::ErrorDetection"])

prop("C09", "Correlated randomness is consistent between parties and fresh",
 """With generators keyed consistently (each contributing party's key shared among all), the k-th correlated random value drawn by all
 parties is the same: their replicated shares of it and of each contributor's part are consistent, each contributor's additive share
 equals the value its replicated part reconstructs to, the parts sum to the random value, and parties beyond the first 2d+1 contribute zero.
 Successive draws are pairwise different and the all-zero variants are valid sharings of zero of the same shape.""",
 ["histories", "configurations"],
 "n=4..10 with d=(n-1)/3, per-party distinct and default keys, draw histories of length up to 6, interleaved with the all-zero variants, and of lengths up to 70000",
 "The test draws one value for n=10 with all keys equal to zero, where any mix-up of keys is invisible.",
 [F+"corr.cc", F+"corr.h"],
 [("per-contributor, per-element generators advanced in lock step", F+"corr.cc Correlator::GenRandomShare")],
 ["Correlator::GenRandomShare", "GenRandomShareDummy", "GenZeroShareDummy", "SetOwnPRGs", "SetRandPRGs"])

prop("C10", "Protocol messages hide the secrets: views of d parties are independent",
 """If generator outputs for distinct keys are independent uniform values, then in the input and multiplication protocols
 everything a single party (or any set of at most d parties not supplying the inputs) holds and receives is distributed identically for all secret values.
 In particular no mask is ever used for two transmitted values (also when the key setup is run again, provided every protocol instance is
 given correlator state of its own), and the key setup sends each party only the key elements its position entitles it to.""",
 ["inputs", "histories"],
 "all generator outputs over a tiny field for n=4, all secrets, all single-party coalitions, 1-2 inputs, one multiplication; mask freshness for n=4..7 (10 thorough), batches up to 20000 (70000), up to 4 runs of the key setup",
 "A distributional statement over all random tapes; tests check only results and would pass with no masks at all.",
 [F+"input.h", F+"input_corr.h", F+"input_corr.cc", F+"mult.h", F+"corr.cc"],
 [("one-time masks from correlated generators", F+"input_corr.h Correlator::GetMask, " + F+"mult.h")],
 ["messages passed to Network::Send*"])

prop("C11", "Verification data records every multiplication exactly once",
 """After any sequence of multiplication batches recording into one verification record, each party's record holds for every multiplication, in order
 and exactly once, what it sent to the first party, the value it received back, its shares of all parties' products, and at the first party what it received from each sender.
 The compressed record a party derives is, at each of parties 1..2d, the random linear combination of what it sent and of what it received, and at the first
 party the combination of what it received from each sender, all with the same coefficients at every party.""",
 ["histories", "configurations", "inputs"],
 "n=4..10, histories of up to 3 batches of sizes 0..3 (protocol objects made, or made and prepared, in advance or in turn; the same shares used repeatedly), batches around round sizes up to 5000 (66000 thorough), all parties",
 "The only check test asserts nothing beyond termination and records a single multiplication.",
 [F+"mult.cc", F+"mult.h", F+"check.h"],
 [("appending to the record in Prepare/SendStep/OutputStep", F+"mult.cc"),
  ("linear combination", F+"check.h PrepareLinearCombinations")],
 ["CheckData", "Check::PrepareLinearCombinations"],
 "read-only accessors to the compressed record and the coefficients (guard FRN_VERIF_HOOKS in src/frn/check.h)")

prop("C12", "Verification openings give each party exactly the missing elements",
 """When the compressed products are opened, for every party and every double-threshold additive share that party does not hold, exactly one holder (the
 lowest-numbered) sends it the value and every other holder sends one digest, and no party is sent an element it already holds. Together with its own elements every
 party can then reconstruct, for each of the first 2d+1 contributors, the combination of that contributor's products, and these sum to the combination of all true products; the exchange terminates with nothing left unread.""",
 ["configurations", "inputs", "histories"],
 "n=4..10 (13 thorough), every party, 0..3 recorded multiplications and numbers around round sizes up to 66000",
 "No test looks at who is sent what: opening too much or too little terminates just the same.",
 [F+"shr.cc", F+"check.h"],
 [("reconstruction table", F+"shr.cc ShrManipulator::Init"), ("batched opening", F+"check.h PrepareMsgs, ReconstructMsgs")],
 ["ShrManipulator::GetTableRec", "messages of Check::ReconstructMsgs"])

prop("C13", "Every pair of parties has a reliable in-order byte stream",
 """For every ordered pair of parties of a connected network, including a party and itself, the bytes received are exactly the bytes sent, in order, without loss,
 duplication or mixing between peers, regardless of how sends and receives are sized (including empty ones) and typed (bytes, field elements, shares), of how the operating system splits reads and
 writes, and of how threads are scheduled. Broadcast delivers to every party.""",
 ["schedules", "inputs", "fault_sequences"],
 "all send/receive chunkings of short messages per pair, all interleavings up to a deviation bound of party and sender threads over a simulated kernel, all positions of short reads/writes up to a bound; messages of all sizes around round ones up to 140000 (600000 thorough) and of 1 MiB",
 "Tests send one 4-byte message per pair under whatever schedule happens; self-delivery with different chunking, short reads/writes and interleavings are never controlled.",
 [L+"net/channel.cc", L+"net/channel.h", L+"net/connector.cc", L+"net/connector.h", L+"net/network.h", F+"tcp_network.h", L+"net/shared_deque.h"],
 [("send queue and sender thread", L+"net/channel.cc"), ("full read/write loops", L+"net/connector.cc"), ("local queue", L+"net/connector.h LocalConnector")],
 ["TcpNetwork::Send*/Recv*", "net::Network::SendTo/RecvFrom/Broadcast"])

prop("C14", "Closing a network delivers everything sent before and always returns",
 """Under every interleaving of the closing thread, the sender threads and the peers, closing a network returns, all its
 sender threads have ended by then, and every byte passed to a send before the close is still delivered to a peer that reads it before closing itself (provided each party reads what is addressed to it before it closes). No operation is attempted on a descriptor after it was closed.""",
 ["schedules"],
 "all interleavings up to a deviation bound for 1 to 4 parties closing immediately after sending, with unbounded and small transport buffers; all interleavings (partial-order reduced) for a single channel; queues of up to 5200 messages and messages of up to 140000 bytes",
 "Tests join all parties before closing any network, so a close never overlaps pending sends.",
 [L+"net/channel.cc", L+"net/network.h", L+"net/connector.cc"],
 [("shutdown of the sender thread", L+"net/channel.cc AsyncSenderChannel::Close")],
 ["Network::Close", "Channel::Close"])

prop("C15", "Network setup connects every pair correctly in any start order",
 """However the parties' start-ups interleave, connecting a network of n parties terminates with every pair of parties joined by one connection whose two ends
 are attributed to each other, each pair using its own port, the lower-numbered party listening and the higher-numbered one dialling (retrying until the listener is up).""",
 ["schedules", "configurations"],
 "n=2..4 with all interleavings up to a deviation bound over a simulated kernel; ports, roles and pairing for every n<=16 and several base ports",
 "Tests connect with one schedule; nothing identifies which peer is at the other end of a connection except payloads in one test.",
 [L+"net/builder.cc", L+"net/connector.cc", L+"net/network.h"],
 [("port assignment", L+"net/builder.cc port_picker"), ("ordered opening of channels, client retry", L+"net/network.h Connect, " + L+"net/connector.cc")],
 ["Network::Connect"])

prop("C16", "Lost connections and OS errors are reported, never turned into data",
 """Whatever read, write or connection-setup call fails or reports end-of-stream, at whatever point, a receive either returns exactly the bytes the peer sent or raises an exception; it
 never returns made-up or stale bytes as if they had arrived. What a peer receives is always a prefix of what was sent, setup errors raise a system error carrying the OS error code, and no
 failure makes a receive spin forever, a close hang or the process die of a signal (a peer of a party whose set-up failed may keep waiting for it to come up). Bytes passed to a send are
all handed to the operating system, in order, or an exception says otherwise at the latest when the network is closed.""",
 ["fault_sequences", "schedules"],
 "every system call of short send/receive histories of 2 and 3 parties made to fail (breaking the connection, just once, or whenever tried again), to be short, or to see end-of-stream (one and two faults), under schedules up to a deviation bound over a simulated kernel",
 "No test injects any fault.",
 [L+"net/connector.cc", L+"net/channel.h", L+"net/channel.cc", L+"net/sysi.h"],
 [("error translation", L+"net/connector.h set_error_and_throw"), ("read/write loops", L+"net/connector.cc")],
 ["TCPConnector::Send/Recv", "Channel::Recv", "Connector::Connect"])

prop("C17", "The shared queue is a linearizable FIFO without lost wake-ups or races",
 """Under every interleaving of any number of producers and one consumer (the only thread that removes or reads elements), elements come out exactly once and in a FIFO order consistent with
 each producer's order, a waiting consumer is always woken when an element is available, reading the front does not remove it, the size query is exact at some instant within the call, and no two threads access the queue's state without synchronization.""",
 ["schedules"],
 "up to 3 producers and a consumer, scripts of up to 6 operations (8 thorough) (push by copy, push by move, front, pop, size): all interleavings with partial-order reduction and spurious wake-ups, happens-before race detection on every memory access in each",
 "The queue is only exercised indirectly, under uncontrolled schedules.",
 [L+"net/shared_deque.h"],
 [("mutex and condition variable", L+"net/shared_deque.h")],
 ["SharedDeque"])

prop("C18", "Protocol results do not depend on thread scheduling",
 """Running key setup, input, multiplication and verification over the real TCP network stack terminates under every interleaving of party and sender threads, every party obtains exactly the
 same shares in each of them as in a sequential run, and no two threads access memory without synchronization.""",
 ["schedules"],
 "full protocol stack over the simulated kernel: n=4 under all interleavings up to a deviation bound with happens-before race detection in each, n up to 8 (10 thorough) under five default schedules",
 "Tests run each protocol under one uncontrolled schedule.",
 [F+"tcp_network.h", L+"net/channel.cc", L+"net/network.h", F+"mult.cc", F+"input.cc", F+"check.h"],
 [("one sender thread per channel; blocking receives", L+"net/channel.cc")],
 ["Input::Run", "Mult::Run", "Check::ReconstructMsgs over TcpNetwork"])

prop("C19", "A built network matches its configuration or building fails",
 """For every sequence of configuration calls, in any order and with repetitions, building either raises an exception or yields a network whose identity, size, addresses and ports are those of the last accepted
 settings; an inconsistent configuration (missing identity, size or transport, identity not below size, number of addresses different from the size, missing addresses, unusable port) always raises an exception, and a rejected call leaves earlier settings in force. Declaring all parties local takes precedence over addresses from a connection file.""",
 ["histories", "configurations"],
 "all sequences of configuration calls up to a depth over 24 calls (36 for sequences that complete a configuration) with valid, boundary and invalid arguments, each followed by a build and, if it succeeds, a connection to reference peers in a simulated kernel",
 "Tests only ever use one call order with consistent values.",
 [L+"net/builder.cc", L+"net/builder.h", L+"net/connector.h"],
 [("validation in each setter and in Build", L+"net/builder.cc")],
 ["Network::Builder"])

prop("C20", "Reported communication equals the traffic actually exchanged",
 """For every history of sends and receives of bytes, field elements and shares, the communication summary a party prints shows, for each peer with traffic, exactly
 the number of payload bytes it sent to and received from that peer, and no line for a peer without traffic; field elements count 8 bytes and shares the number of their elements times that. What a receive asked for but did not get (it failed) is not reported as received.""",
 ["histories"],
 "all operation histories up to depth 3 (4 thorough) over typed sends/receives of sizes 0..2 to self and two peers for n=4, whole protocol runs, amounts around round sizes up to 300000, one run of more than 2^32 bytes, and receives that fail because the peer closed after 0..30 bytes",
 "The summary is printed by tests but never looked at.",
 [F+"tcp_network.h"],
 [("counting in each send and receive", F+"tcp_network.h Summary")],
 ["TcpNetwork::PrintCommunicationSummary"])

prop("C21", "Field arithmetic is exact modulo the prime",
 """For both supported primes, 2^61-1 and 2^127-1, every operation on field elements (construction from any machine integer, addition, subtraction, negation, multiplication, inversion, division, comparison, in place or not,
 also when both operands are the same object) gives the unique representative in [0,p) of the mathematical result. Inverting or dividing by zero raises an exception; the generic modular helpers and the inverses modulo powers of two satisfy the same for any modulus in their range.""",
 ["inputs"],
 "all pairs from alphabets of hundreds of boundary and carry-provoking values for both primes; all elements and pairs for all primes below 128 with the generic helpers; all odd residues for small power-of-two moduli",
 "Tests use a few small constants; carries, borrows and results equal to p only arise for special operands.",
 [L+"math/arithmetic.h", L+"math/arithmetic.cc", L+"math/fp.h", L+"math/p.h", L+"math/ring.h"],
 [("Mersenne reduction, 256-bit product", L+"math/arithmetic.cc")],
 ["FpElement operators"])

prop("C22", "Values survive conversion to bytes, strings and back",
 """For every field element of either prime, writing it to bytes and reading it back, and printing it in decimal and parsing it, give the same element, with the canonical little-endian and decimal forms; reading arbitrary bytes, or the digits
 of any number that fits the element's integer type, gives its value modulo p. The same holds for lists of elements, nothing outside the destination is written, and hexadecimal and list renderings show exactly the given content.""",
 ["inputs"],
 "value alphabets with all powers of ten and two and their neighbours, arbitrary byte patterns, list lengths 0..70 and around round sizes up to 70000, byte strings of every content up to 2 bytes and of lengths up to 70000",
 "Tests never convert values to strings and never check the byte form.",
 [L+"math/fp.h", L+"math/vec.h", L+"tools.cc", L+"tools.h", L+"secret_sharing/rep.h"],
 [("ToBytes/FromBytes, to_string/from_string", L+"math/fp.h, tools.h")],
 ["FpElement::ToBytes/FromBytes/ToString", "vector::ToBytes/FromBytes", "bytes2hex", "to_string"])

prop("C23", "The generator outputs AES-128 in counter mode",
 """For every seed and every history of requests, copies and resets, each request of m bytes returns the first m bytes of the AES-128 encryptions, under the seed, of the next ceil(m/16) counter blocks (64-bit little-endian counter followed by the fixed nonce), and
 the counter then continues after them; a reset restarts the stream, a copy continues independently, a request larger than its destination is refused without effect, and nothing but the m bytes is written.""",
 ["inputs", "histories"],
 "all request/copy/reset histories up to depth 4 (5 thorough) over sizes 0..49 around block boundaries, 130+ seeds, requests of every size up to 700 (4200 thorough) and around round sizes up to 2^20, streams of more than 2^16 blocks",
 "No test inspects generator output; protocol tests pass with any deterministic function.",
 [L+"primitives/prg.cc", L+"primitives/prg.h"],
 [("AES-NI key schedule and counter blocks", L+"primitives/prg.cc")],
 ["PRG::Next", "PRG::Reset", "PRG::Counter", "PRG::Seed"])

prop("C24", "Hashing equals SHA-3 however the input is chunked",
 """For each of the 256, 384 and 512 bit variants and every byte string, the digest equals the FIPS-202 SHA-3 digest, independently of how the string is divided into update calls (including empty ones).""",
 ["inputs", "histories"],
 "all lengths up to two blocks and more, all two-way splits, all three-way splits of short strings, byte-wise feeding; several contents; lengths around round sizes up to 140000, around 2^16 words and 2^16 blocks, and 16 MiB (128 MiB thorough)",
 "No test calls the hash at all.",
 [L+"primitives/hash.h"],
 [("absorb with partial words", L+"primitives/hash.h Hash::Update")],
 ["Hash::Update", "Hash::Finalize"])

prop("C25", "Vector and matrix operations match their definitions",
 """Every vector and matrix operation over the field (sums, differences, entry-wise, inner and matrix products, scaling, submatrices, Vandermonde matrices, text form) gives the mathematically defined result for every shape, the non-in-place forms leave their operands
 unchanged, the text form shows every entry at its row and column, and mismatched shapes or out-of-range submatrix bounds raise an exception instead of touching other memory.""",
 ["inputs", "programs"],
 "all shapes up to 6x6 (8x8 thorough), all contents over F_2 and F_3 with up to 4 entries, all submatrix bounds; vectors of lengths around round sizes up to 8200",
 "No test covers matrices; vectors only through sums.",
 [L+"math/mat.h", L+"math/vec.h"],
 [("index arithmetic and shape checks", L+"math/mat.h")],
 ["Matrix", "math::vector"])

prop("C26", "Log messages are rendered exactly",
 """For every format string and argument list with one argument per placeholder, a logger receives exactly one begin, one message and one end notification of the
 right level, and the message is the format with its k-th placeholder replaced by the k-th argument verbatim (placeholders inside arguments are not expanded); the console logger prints the level mark, the optional time stamp and the message on one line, and the void logger prints nothing.""",
 ["inputs"],
 "all format strings up to length 6 over {letter, blank, placeholder}, matching argument lists from an alphabet including placeholders and empty strings, all levels and loggers; messages of lengths around round sizes up to 100000, with line breaks and special characters",
 "Logging output is never inspected.",
 [L+"logging/logger.h", L+"logging/stdout.h", L+"logging/nowhere.h"],
 [("recursive interpolation", L+"logging/logger.h DoLog")],
 ["Logger::Info/Warn/Error"])

prop("C27", "The experiment programs run to completion for all parties",
 """Started as n parties with the same parameters in any order and under any interleaving, each of the input, multiplication and check programs terminates normally at every party, reports the elapsed times and communication, and the reported communication is mutually consistent: what one party reports sent to
 another is what the other reports received from it. Parties exit without waiting for slower ones and no party is left without its data; too few arguments give a usage message and invalid party counts and numbers are refused.""",
 ["schedules", "configurations"],
 "all three programs for n=4 under all interleavings up to a deviation bound over a simulated kernel and every starting order, n=5..9 (10 thorough) under five default schedules, counts 0..100, about 250 argument vectors",
 "The programs are built but never run by the tests.",
 [F+"exp_input.cc", F+"exp_mult.cc", F+"exp_check.cc", F+"tcp_network.h", L+"net/channel.cc"],
 [("connect, run, print, close", F+"exp_*.cc main")],
 ["program output and termination"])

prop("C28", "Every descriptor opened for a network is closed exactly once",
 """Once all networks of a run are connected and closed again, under every interleaving, every descriptor the system handed out has been closed exactly once, including those used only for listening, and no descriptor that was not obtained by the network is ever read, written or closed. This includes networks that are closed more than once.""",
 ["schedules", "configurations"],
 "n=1..4 (larger n under default schedules) over a simulated kernel with a descriptor ledger, all interleavings up to a deviation bound; closing once, twice, and without connecting",
 "Leaks and stray closes do not show in any test result.",
 [L+"net/connector.cc", L+"net/channel.cc"],
 [("socket ownership in connectors", L+"net/connector.cc")],
 ["socket/accept/close calls"])

prop("C29", "A network that is given up is torn down",
 """Destroying a network returns at every point of its life, under every interleaving with its sender threads and its peers: before it was connected, connected but not closed, after an exception from
a transfer, after connecting or closing failed, after it was closed once or twice. By then all of its sender threads have ended and every descriptor obtained for it has been closed exactly once, and
neither the thread that gives it up nor a sender thread that fails meanwhile touches shared state without synchronization. What was sent before is still handed to the operating system unless the connection failed.""",
 ["schedules", "fault_sequences"],
 "scripts of up to 2 (thorough: 3) sends, receives and closes per party for n=1..3 (4 with fixed scripts), each ended by destroying the network, without faults and with every single and double fault in set-up, transfers and closing, under schedules up to a deviation bound",
 "Every test closes its networks.",
 [L+"net/channel.h", L+"net/channel.cc", L+"net/connector.cc"],
 [("end of the sender thread", L+"net/channel.h ~AsyncSenderChannel"), ("listening socket", L+"net/connector.cc TCPServerConnector::EstablishConnection")],
 ["Network destruction"])

prop("C90", "The generator is computationally indistinguishable from random",
 """No efficient distinguisher can tell the generator's output under a random seed from random bytes.""",
 ["inputs"], "all efficient distinguishers",
 "A cryptographic assumption about AES, not an observable behaviour of this code.",
 [L+"primitives/prg.cc"], [("AES-128", L+"primitives/prg.cc")])
prop("C91", "A cheating party is caught with overwhelming probability",
 """A party deviating in a multiplication is identified by the verification protocol except with negligible probability.""",
 ["fault_sequences"], "all deviations of up to d parties",
 "The comparison and blame steps of the verification protocol are declared but not implemented in this repository.",
 [F+"check.h"], [("AgreeOnTranscript (declared only)", F+"check.h")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
