"""What each check explores; shared by check.py (evidence) and mkmanifest.py."""
SESSION = ["garbled_circuit_main.cpp main() of both parties", "garbled_circuit_{high,low}_mem.cpp, garbled_circuit.cpp, "
           "garbled_circuit_util.cpp", "util/*.cpp", "tcpip/tcpip.cpp", "crypto/{OT,OT_extension,BN}.cpp and AES code",
           "scd/scd.cpp reader", "libstdc++, boost and OpenSSL bignum arithmetic"]
OT = ["crypto/OT.cpp, crypto/OT_extension.cpp, crypto/BN.cpp, OT_main.cpp", "tcpip/tcpip.cpp", "util/*.cpp",
      "OpenSSL bignum arithmetic"]
TOOLS = ["scd/*.cpp with the main()s of V2SCD and SCD_Evaluator", "util/*.cpp", "libstdc++ streams, boost"]
STUBS = ["kernel sockets, DNS, poll/select (simulated network with bounded buffers, latency, segmentation)",
         "file system (simulated disk per host)", "clocks, sleep, rdtsc, rdrand (simulated)",
         "kernel and OpenSSL entropy (seeded)", "memory allocator content and failures (seeded fill)",
         "RSA key generation (a pool of 1024-bit keys chosen by the seeded entropy; 1 in ~100 worlds generates really)",
         "process creation, exit, signals, crash (fibers with private copies of the program's globals)"]
ASSUMPTIONS = [
    "the build under test differs from the shipped one in compiler flags only (-O1 with AddressSanitizer: g++ with "
    "logging on, clang++ with logging off, g++ with dumping on)",
    "processes interact only through sockets and files; the simulator decides every interleaving at those operations",
    "search by seed: a clean run is evidence on the cases explored, not proof",
]
SECONDS = {"quick": {"*": 50, "C08": 80, "C06": 60, "C12": 60}, "thorough": {"*": 600}}
GEN = ("Each seed gives a random circuit (all gate types, constants, flip-flops, public, private and initial inputs, "
       "optionally a terminate signal), inputs, options of both parties, a schedule (latency, segmentation, buffer sizes, "
       "preemption)")
CHECKS = {
 "C01": dict(real=SESSION, rule=GEN + "; no faults. Every case is a complete two-party session compared bit by bit "
   "with an independent reference model of the circuit."),
 "C02": dict(real=SESSION, rule=GEN + ", and one to three faults placed at operations counted in an undisturbed run of "
   "the same case. Non-trivial: a fault fired.",
   note="Fail-stop under injected faults; allocation failures inside boost and OpenSSL are excluded."),
 "C03": dict(real=SESSION, rule=GEN + " plus stalls, or the loss of the peer or connection at a chosen operation. "
   "Non-trivial: a live connection with the whole protocol run, or a fault that fired.",
   note="Progress: no process blocked for ever or beyond a step bound in any explored schedule."),
 "C04": dict(real=SESSION, rule=GEN + " with a terminate signal fed by public or private data. Non-trivial: the "
   "session ends before the requested number of cycles."),
 "C05": dict(real=SESSION, rule=GEN + " and masks. Non-trivial: both parties own secret outputs, or some are public. "
   "Includes a comparison of traffic with the mask of one bit moved."),
 "C06": dict(real=SESSION, rule=GEN + ". The same session is run with equal randomness and different garbler inputs and "
   "the byte streams are compared; label pairs and the offset are searched in everything sent."),
 "C07": dict(real=SESSION, rule=GEN + ". The same session is run with different initial contents of every memory block, and streams, "
   "results and statuses compared."),
 "C08": dict(real=SESSION, rule="Sessions and bare transfers of 1 to 3000 choices. From the sender's keys, blinding values and all bytes "
   "received, the check derives every relation the garbler could use. Non-trivial: blinded choices or extension columns were seen."),
 "C09": dict(real=OT, rule="Bare transfers of chosen messages (0 to 3000 pairs, extreme values) between two processes; delivered "
   "messages compared, and the sender's stream checked for relations that give the other message away, including an active "
   "receiver. Faults in part of the cases."),
 "C10": dict(real=["tcpip/tcpip.cpp, crypto/BN.cpp"], rule="Scripts of block and number messages in both directions, compared with a FIFO "
   "model; connection loss, errors and stalls in part of the cases."),
 "C11": dict(real=SESSION, rule=GEN + ". Run again with other private inputs and equal lengths compared, and table counts "
   "compared with the reference's bound."),
 "C12": dict(real=SESSION, rule="Two or three sessions under chosen clocks, restarts and entropy. Their streams are searched for "
   "common blocks, and the labels for dependence on the clock alone."),
 "C13": dict(real=SESSION, rule="Histories of one to four sessions with crashes, resets, failed starts, and immediate restarts "
   "on the same port, then an undisturbed session that must succeed."),
 "C14": dict(real=SESSION, rule="The bytes one real party receives from the other are flipped, forged, inserted, dropped or cut at chosen "
   "offsets, or replaced by garbage. Oracle: AddressSanitizer, status, termination."),
 "C15": dict(real=TOOLS, rule="Random Verilog and Bristol netlists are translated on a disk that fails, fills up, or whose process crashes "
   "at a chosen operation; files compared with those of an undisturbed run. Non-trivial: a fault fired."),
 "C16": dict(real=SESSION + TOOLS, rule=GEN + ". The circuit file or an input file is cut, has bytes changed, references moved out of range, "
   "or cannot be read, and is given to either party or the evaluator. Non-trivial: the file is damaged."),
 "C17": dict(real=SESSION + TOOLS, rule="Random netlists (all cells, any order, constants, assigns, flip-flops; Bristol format) are "
   "translated and then run in the evaluator and in a two-party session; compared with an interpreter of the netlist text."),
 "C18": dict(real=TOOLS, rule=GEN + " for the plain-text evaluator; part of the cases with disk faults, damaged maps or failing "
   "allocations. Non-trivial: fault-free, or a fault fired."),
 "C19": dict(real=SESSION, rule=GEN + ", run with logging and dumping compiled in and out, with log and dump files that cannot be opened or written, with logs on the terminal, and "
   "with session faults; streams, outputs and statuses compared."),
}
NA = {
 "C20": "pure functions of their arguments: no schedule, clock, fault or interleaving for a simulator to decide",
 "C21": "pure functions of their inputs compiled for another processor; no nondeterminism, I/O or parties in scope",
 "C22": "hardware sources that need absent synthesis tools; nothing executable to simulate",
}
