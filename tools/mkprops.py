import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
GC=["garbled_circuit/garbled_circuit.cpp","garbled_circuit/garbled_circuit_high_mem.cpp","garbled_circuit/garbled_circuit_low_mem.cpp","garbled_circuit/garbled_circuit_util.cpp"]
p("C01","Two-party run computes the circuit's function",
 "For every valid circuit description, every pair of private inputs, public inputs, clock-cycle count, output mask and combination of options (OT or not, low memory or not, output mode), a session over a working connection ends with both parties reporting success, and each prints exactly the output bits it owns as the plain-text meaning of the circuit defines them, every bit it does not own being 0. How the transport splits, delays or interleaves the bytes makes no difference.",
 ["inputs","configurations","schedules"],"all circuits (all gate types, constants, flip-flops with every kind of initial value), inputs, cycle counts, masks and options; all segmentations, delays and interleavings of the two processes",
 "No stable test runs the garbling code at all (the netlist archive is absent), and any test runs one circuit on one loopback schedule; the property quantifies over circuits, options and transport schedules.",
 GC+["garbled_circuit/garbled_circuit_main.cpp","util/util.cpp","tcpip/tcpip.cpp"],
 [("half-gates garbling and evaluation","GarbleGate/EvalGate in garbled_circuit_util.cpp"),("public-wire propagation and fanout bookkeeping on both sides","Garble*/Evaluate* loops in high_mem/low_mem"),("output decoding","*TransferOutput*, OutputBN2Str*")],
 ["exit status and stdout of both processes"])
p("C02","A session never reports success with a wrong result",
 "Whatever fails during a session - the connection is lost or refused, the peer process dies, a read, write or socket call fails, memory runs out - a party that ends with the success status has printed exactly its correct output. Otherwise it ends unsuccessfully: with a failure status, or ended by the failure itself (memory exhausted, broken pipe). It never corrupts its memory on the way.",
 ["fault_sequences","crash_points","inputs"],"every fault kind at every operation of either party, in every option combination and circuit",
 "Tests never inject a failure; every CHECK path after the happy path is unexecuted.",
 GC+["garbled_circuit/garbled_circuit_main.cpp","tcpip/tcpip.cpp","crypto/OT.cpp","crypto/OT_extension.cpp","crypto/BN.cpp","util/log.h"],
 [("error propagation macros CHECK/CHECK_ALLOC/BN_CHECK","util/log.h"),("return codes of SendData/RecvData","tcpip/tcpip.cpp")],
 ["exit status and stdout of both processes"])
p("C03","Sessions always make progress and end",
 "While the connection delivers what was sent (in arbitrarily small pieces, arbitrarily late, with stalls that heal, holding at least 64 KiB per direction in flight) both parties of a session finish. Once the connection or the peer is gone, the remaining party ends as well instead of waiting or spinning for ever.",
 ["schedules","fault_sequences","configurations"],"all schedules and segmentations, buffer limits from 64 KiB, stalls and healed partitions, loss of the peer at any operation; all circuits and options including early termination and long OT batches",
 "A deadlock needs a particular option and data combination (for example a secret terminate signal) or a particular buffer occupancy; the tests use one idle loopback connection.",
 GC+["tcpip/tcpip.cpp","crypto/OT.cpp","crypto/OT_extension.cpp"],
 [("alternation of SendData and RecvData that matches on both sides","*Transfer* functions, OTSendBN/OTRecvBN"),("EOF and error ends the receive loop","RecvData/SendData in tcpip.cpp")],
 ["completion of both processes within a bounded number of simulated steps"])
p("C04","Both parties stop at the same, correct cycle",
 "When early termination is enabled with period T, both parties end the run at the first cycle c (counted from 0) with c a multiple of T at which the circuit's terminate signal is 1, or after the requested number of cycles if there is none, whether that signal is publicly known or secret. The printed outputs are those of exactly the executed cycles, and no tables, outputs or stop signals of later cycles are exchanged.",
 ["inputs","configurations","schedules"],"all sequential circuits with a terminate signal fed by any mix of public and private data, all periods, cycle counts, output modes and memory modes",
 "Terminating before the limit on private data needs a sequential circuit with a terminate output and a two-party session; no stable test runs one.",
 GC+["scd/scd_evaluator.cpp"],
 [("terminate exchange","GarbleTransferTerminate/EvaluateTransferTerminate"),("clock_cycles update after termination","Garble*/Evaluate* loops"),("fanout of the terminate gate","FillFanout")],
 ["exit status, stdout and exchanged bytes of both processes"])
p("C05","Outputs reach only the party that owns them",
 "Each output bit is revealed to exactly the party the output mask names: the owner prints its correct value, the other party prints 0 for it and is sent nothing that decodes it. This holds for bits that turn out to be publicly known as well as for secret ones, for every mask length and in all modes.",
 ["inputs","configurations"],"all circuits, inputs, masks (shorter than, equal to and longer than the output), output modes, memory modes",
 "Ownership depends on mask and on which outputs are public in which cycle; tests use the default mask on fixed circuits, and the stable ones none at all.",
 ["garbled_circuit/garbled_circuit_high_mem.cpp","garbled_circuit/garbled_circuit_low_mem.cpp","util/util.cpp"],
 [("per-bit branch on mask and public value","GarbleTransferOutput*/EvaluateTransferOutput*")],
 ["stdout of both processes","bytes exchanged"])
p("C06","The garbler's private inputs stay hidden from the evaluator",
 "Everything the garbler sends depends on its private inputs only through the one wire label chosen for each of its input bits: with the same randomness, changing a private input bit changes that single label and nothing else on the wire. The two labels of a wire, or the secret offset between them, can never both be obtained from what was sent.",
 ["inputs","configurations","schedules"],"all circuits, inputs, options; all pairs of inputs differing in some bits under equal randomness",
 "Functional tests see only the result; a leak leaves every result correct.",
 GC+["util/util.cpp"],
 [("label selection by input bit","GarbleTransferLabels, GarbleTransferInitLabels, GarbleTransferInputLabels"),("tables built from labels and tweaks only","GarbleGate"),("fresh tweak per cycle and gate","GarbleGate")],
 ["bytes from garbler to evaluator"])
p("C07","No leftover memory reaches the peer or the result",
 "What a party sends and prints is determined by its inputs, its randomness and the peer's messages. Bytes left over in its memory (earlier keys, labels, freed data) never appear on the wire and never influence a result or a status.",
 ["inputs","configurations","histories"],"all sessions, with any prior content of the memory that the process obtains",
 "Tests run on whatever the allocator returns (mostly zero pages) and compare results only, so padding and uninitialised reads are invisible.",
 GC+["garbled_circuit/garbled_circuit_util.h","scd/scd.cpp","crypto/BN.cpp"],
 [("arrays are filled before they are sent or compared","table arrays and wire arrays in high_mem/low_mem")],
 ["bytes exchanged, stdout and exit status under different initial memory contents"])
p("C08","The evaluator's private inputs stay hidden from the garbler",
 "With oblivious transfer enabled, nothing the evaluator sends lets the garbler, who also knows its own keys and random values, tell any of the evaluator's input bits: every blinded choice is masked by fresh full-range randomness, and bulk transfers mask every bit they carry, whatever the number of transfers. The evaluator's inputs are sent in the clear only when oblivious transfer was explicitly disabled.",
 ["inputs","configurations"],"all numbers of transfers (including above the RSA modulus length), all selections, all circuits and memory modes",
 "A leak leaves the transferred messages correct, and tests compare only those.",
 ["crypto/OT.cpp","crypto/OT_extension.cpp","garbled_circuit/garbled_circuit_high_mem.cpp","garbled_circuit/garbled_circuit_low_mem.cpp"],
 [("blinding v = x_b + k^e mod n","OTRecvBN"),("masking m' = m + k","OTSendBN as used by the extension's receiver"),("choice of OT or plain transfer","GarbleTransfer*/EvaluateTransfer*")],
 ["bytes from evaluator to garbler"])
p("C09","Oblivious transfer delivers the chosen message and only that",
 "For every number of transfers, every pair of messages and every selection, the receiver obtains exactly the selected message of each pair. What it is sent does not let it derive the other message of any pair from known relations: the two are masked independently, with fresh randomness in every transfer and session.",
 ["inputs","schedules"],"all batch sizes across the base/extension boundary, all messages (including extreme values with leading zeros) and selections, all transport schedules",
 "Tests use 10-30 and 1000-1500 random messages on loopback and never look at the unselected message.",
 ["crypto/OT.cpp","crypto/OT_extension.cpp","crypto/BN.cpp","crypto/OT_main.cpp"],
 [("RSA-based 1-of-2 OT","OTSendBN/OTRecvBN"),("IKNP extension with hashed rows","OTExtSendBN/OTExtRecvBN/HashBN"),("block/BIGNUM conversion with leading zeros","BlockToBN/BNToBlock")],
 ["received messages","bytes from sender to receiver"])
p("C10","Messages cross the transport intact and in order",
 "Whatever sequence of byte blocks and big numbers one side sends, the other side receives the same values in the same order and success on both sides, however the connection splits, delays or interleaves the bytes in both directions. If the connection ends or fails inside a message, the operation reports failure and never success with partial data.",
 ["schedules","inputs","fault_sequences"],"all message sequences and sizes (0 bytes to hundreds of KiB; numbers from 0 upwards), all segmentations, connection loss at any byte",
 "The stable test sends one short string over an idle loopback, where reads and writes are never partial.",
 ["tcpip/tcpip.cpp","crypto/BN.cpp"],
 [("loops over partial reads and writes","SendData/RecvData"),("length prefix","SendBN/RecvBN")],
 ["values and status returned to both callers"])
p("C11","Traffic depends only on public data and is bounded",
 "Apart from the leading zero bytes that the encoding of big numbers leaves out, the amount of data exchanged is the same whatever the private inputs are. The garbler sends at most one table per cycle for each non-XOR gate whose two inputs both still depend on private data after public values are propagated and whose result is still needed; XOR and NOT gates, and gates decided by public values, cost nothing.",
 ["inputs","configurations"],"all circuits, public values, private inputs, cycle counts, memory modes",
 "Tests check values, not traffic; data-dependent skipping or lost skipping keeps results correct.",
 GC,
 [("known-value pass and fanout reduction","Garble*/Evaluate* loops, ReduceFanout"),("free XOR","GarbleGate")],
 ["number of bytes exchanged in each direction"])
p("C12","Every session uses fresh, unpredictable secrets",
 "Labels, the secret offset and keys come from a cryptographic random source: two sessions never share them, even when the processes start in the same second, the clock jumps or is reset, or a process restarts after a crash, and knowing the start time and everything sent does not determine them.",
 ["histories","configurations"],"all histories of sessions, restarts and clock settings",
 "Needs several process lifetimes and control of the clock; a test sees one session and cannot tell predictable from unpredictable labels.",
 ["util/util.cpp","garbled_circuit/garbled_circuit_main.cpp","garbled_circuit/garbled_circuit.cpp","crypto/OT.cpp"],
 [("random block source","RandomBlock/SrandSSE"),("seeding at process start","main()")],
 ["bytes from garbler to evaluator across sessions"])
p("C13","After any failure history a new session works",
 "After any sequence of sessions that were cut short by crashes, lost connections or failed starts of either party, starting both parties again with the same files and port gives a session that succeeds with the correct result. No failed session leaves behind anything that disturbs a later one, and a further party that connects while a session runs does not disturb it.",
 ["histories","crash_points","fault_sequences"],"all sequences of up to several failed or completed sessions, crash points and restart orders, including immediate restart on the same port",
 "Tests run each program once, without crashes; reuse of port and files across process lifetimes is not covered.",
 ["tcpip/tcpip.cpp","garbled_circuit/garbled_circuit_main.cpp","garbled_circuit/garbled_circuit.cpp","util/log.cpp"],
 [("address reuse on the listening socket","ServerOpenSocket"),("all session state lives in the process","GarbleStr/EvaluateStr")],
 ["exit status and stdout of the sessions of a history"])
p("C14","Malformed peer data cannot corrupt or crash a party",
 "Whatever bytes the peer sends - wrong counts, negative or huge lengths, flipped bits, missing or extra data, random garbage - a party stays within its memory, ends by itself, and ends in an ordinary success or failure status rather than a crash.",
 ["inputs","fault_sequences"],"all modifications of the byte stream received by either party at any point of a session, in all option combinations, and for stand-alone oblivious transfer",
 "Tests only ever talk to a well-behaved peer.",
 ["garbled_circuit/garbled_circuit_high_mem.cpp","garbled_circuit/garbled_circuit_low_mem.cpp","crypto/BN.cpp","crypto/OT.cpp","crypto/OT_extension.cpp","tcpip/tcpip.cpp"],
 [("count and length checks on received headers","Evaluate* loops, RecvBN, OTRecvBN")],
 ["memory errors, exit status"])
p("C15","A translated circuit file is complete whenever success is reported",
 "If the translator ends with the success status, the circuit file and its mapping file on disk are complete and identical to what an undisturbed run writes. If writing or reading fails part-way (disk full, I/O error, file cannot be opened), it reports failure.",
 ["fault_sequences","crash_points","inputs"],"every disk fault at every file operation of a translation, all netlists",
 "Tests never make a disk operation fail.",
 ["scd/scd.cpp","scd/scheduling.cpp","scd/parse_netlist.cpp","scd/v_2_scd.cpp","scd/v_2_scd_main.cpp"],
 [("stream state checks in WriteSCD and WriteMapping","scd/scd.cpp, scd/scheduling.cpp"),("error propagation in Verilog2SCD/Bris2SCD","scd/v_2_scd.cpp")],
 ["exit status and files on disk"])
p("C16","Damaged or unreadable input files are never used silently",
 "A circuit file or netlist that was cut short (by a crash of its writer or a full disk), cannot be read, or (circuit file) contains wire references outside the circuit, and an input file that cannot be read, make every program that uses it end with a failure status. The same holds for an input file whose content is not hexadecimal. They never lead to a successful run on different data, or to an access outside the program's memory. (A file name that is itself a hexadecimal number is taken for a value when it cannot be opened.)",
 ["fault_sequences","crash_points","inputs"],"every truncation point, read error position and corrupted byte of circuit and input files, for both parties and the plain-text evaluator",
 "Tests read intact files only.",
 ["scd/scd.cpp","scd/scd_evaluator.cpp","scd/scd_evaluator_main.cpp","util/util.cpp","garbled_circuit/garbled_circuit.cpp"],
 [("stream and range checks in ReadSCD","scd/scd.cpp"),("hexadecimal parsing of inputs","ParseInitInputStr, ReadFileOrPassHex")],
 ["exit status, stdout, memory errors"])
p("C17","The whole tool chain preserves the meaning of a netlist",
 "For every supported netlist (gate-level Verilog with all cell types, or Bristol format), translating it to a circuit file and running that file - in the plain-text evaluator or as a two-party session - produces exactly the values the netlist defines, cycle by cycle. A netlist with a combinational loop or an input that nothing drives is refused with a failure status. The order of the statements in a netlist has no influence, and nor has how file and network reads are split.",
 ["programs","inputs","schedules"],"all netlists: cells in any order, assignments, constants, flip-flops, adders and multiplexers; all inputs and cycle counts; all read/write segmentations",
 "The translator tests need the absent netlist archive, and fixed netlists cannot cover orderings and combinations of cells.",
 ["scd/parse_netlist.cpp","scd/scheduling.cpp","scd/scd.cpp","scd/v_2_scd.cpp","scd/scd_evaluator.cpp"]+GC,
 [("cell expansion","ParseNetlist"),("numbering and assignment resolution","IdAssignment"),("topological sort and renumbering","SortNetlist"),("file format writer and reader","WriteSCD/ReadSCD")],
 ["stdout of the evaluator and of both parties"])
p("C18","The plain-text evaluator agrees with the circuit and reports failures",
 "For every valid circuit, inputs, cycle count, output mode and termination period the plain-text evaluator prints the outputs the circuit defines. It ends with a failure status whenever it could not read or write what it needs, never printing a made-up result as success.",
 ["inputs","configurations","fault_sequences"],"all circuits, inputs, cycles, modes, periods; every disk fault at every file operation",
 "Its tests depend on the absent netlist archive and never fail a file operation.",
 ["scd/scd_evaluator.cpp","scd/scd_evaluator_main.cpp","scd/scd.cpp"],
 [("per-cycle evaluation","EvalauatePlaintext"),("error returns","EvalauatePlaintextStr and main")],
 ["stdout, exit status, trace file"])
p("C19","Diagnostics never change behaviour",
 "Whether log and dump files can be created or written, whether logs go to files or to the terminal, and whether the program was built with logging and dumping on or off, makes no difference to the bytes exchanged, the printed results and the statuses (log lines sent to the terminal apart); in particular failures are detected and reported in every build.",
 ["configurations","fault_sequences"],"all build configurations, every failure of log and dump output, with and without session faults",
 "Only the build with logging on is ever tested, on a disk that always works.",
 ["util/log.h","util/log.cpp","util/tinygarble_config.h.in"],
 [("CHECK, CHECK_ALLOC and BN_CHECK in both configurations","util/log.h"),("log streams","util/log.cpp")],
 ["exit status, stdout and bytes exchanged"])
p("C20","Format helpers convert inputs, masks and outputs correctly",
 "The helpers that turn numbers into circuit input strings and masks, and output strings back into signed numbers, are exact inverses for every value and bit length.",
 ["inputs"],"all values, bit lengths and share sizes",
 "The existing tests sample a few values.",
 ["util/util.cpp","garbled_circuit/garbled_circuit_testing.cpp"],
 [("formatGCInputString, parseGCOutputString, formatGCOutputMask","util/util.cpp")],["return values"])
p("C21","The ARM benchmark programs compute what their C sources say",
 "Each benchmark program of the processor flow computes its specified function for every input.",
 ["inputs"],"all inputs of each program","The existing tests run one input per program.",
 ["a23"],[("C functions under a23","a23/*")],["program output"])
p("C22","The synthesis library's circuits implement their specifications",
 "Each hardware description shipped with the project, once synthesised, computes the arithmetic function its name and documentation state.",
 ["programs","inputs"],"all shipped descriptions and parameters","Synthesis needs commercial tools; no test covers it.",
 ["circuit_synthesis"],[("Verilog sources","circuit_synthesis/*")],["synthesised netlist"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80
print(len(P))
