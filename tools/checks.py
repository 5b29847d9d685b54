"""What each property's check builds and runs. Used by run.py and tools/gen_manifest.py."""
H = "harness/"
SMALL_LARGE = lambda src: [dict(sources=[H + src], variant="asan", set="small"), dict(sources=[H + src], variant="fast", set="large")]
MEM = "the in-memory network delivers each ordered pair's bytes in order (what C13 checks of the real one)"

CHECKS = {
    "C02": dict(level="model_checking", runs=SMALL_LARGE("c02.cc"), technique="explicit enumeration of input histories on the real protocol vs. reference sharing model",
                rule="one case = party count x threshold x per-party counts x preparation order/style x generator seeds; distinct = distinct resulting share tables",
                assumptions=[MEM, "party count at most 13"]),
    "C03": dict(level="model_checking", runs=SMALL_LARGE("c03.cc"), technique="explicit enumeration of multiplication histories on the real protocol vs. reference sharing model",
                rule="one case = party count x threshold x sequence of batch sizes x key assignment x operands; distinct = distinct resulting share tables",
                assumptions=[MEM]),
}
CHECKS.update({
    "C04": dict(level="model_checking", runs=SMALL_LARGE("c04.cc"), technique="depth-first enumeration of all operation sequences on the real shares vs. expression model",
                rule="one case = (n,d) x secrets x first operation, explored to a fixed depth over all operations/operands/constants; state = table of all parties' shares",
                assumptions=["operation sequences up to depth 3 (4 thorough)"]),
    "C05": dict(level="model_checking", runs=SMALL_LARGE("c05.cc"), technique="exhaustive enumeration of unit-share pairs and position pairs vs. set-theoretic placement model",
                rule="one case = (n,d) x additive share (all partners enumerated), operand pair, or party (all element pairs enumerated); state = resulting share table",
                assumptions=["n up to 13"]),
    "C06": dict(level="model_checking", runs=SMALL_LARGE("c06.cc"), technique="exhaustive enumeration of (n,t) and queries vs. subset model",
                rule="one case = (n,t) x query family or secret list; state = share table",
                assumptions=["n up to 14 (16 thorough) for full placement, invalid thresholds up to 4096"]),
    "C08": dict(level="model_checking", runs=[dict(sources=[H + "c08.cc"], variant="fast")], technique="exhaustive enumeration of altered copies and coalitions vs. acceptance model",
                rule="one evaluation = one altered sharing; distinct by contents; includes all single additive shares x holder subsets, all pairs, small triples, all coalitions leaving an honest holder",
                assumptions=["n up to 8 (9 thorough) for full enumeration"]),
    "C09": dict(level="model_checking", runs=[dict(sources=[H + "c09.cc"], variant="asan")], technique="enumeration of draw sequences x key assignments vs. sharing-consistency model",
                rule="one case = (n,d) x key assignment x per-party draw sequence",
                assumptions=["keys are shared consistently among the parties, as the setters' documentation requires"]),
})
CHECKS.update({
    "C11": dict(level="model_checking", runs=[dict(sources=[H + "c11.cc"], variant="asan")], technique="enumeration of batch histories; recorded data vs. recorded network traffic and product model",
                rule="one case = (n,d) x sequence of batch sizes x key assignment; state = recorded product shares",
                assumptions=[MEM]),
    "C12": dict(level="model_checking", runs=[dict(sources=[H + "c12.cc"], variant="asan")], technique="enumeration of verification runs; opening traffic vs. placement model",
                rule="one case = (n,d) x sequence of batch sizes x key assignment x scheduling order; state = opening messages",
                assumptions=[MEM, "the code sends a placeholder element as digest; only the number and addressees of digests are checked"]),
})
CHECKS.update({
    "C01": dict(level="model_checking", runs=[dict(sources=[H + "c01.cc"], variant="fast", set="large"), dict(sources=[H + "c01.cc"], variant="asan", set="small")],
                technique="enumeration of all small circuits, joint execution vs. plaintext evaluation",
                rule="one case = party count x input owners x circuit x batching; state = shares of a prefix of the wires",
                assumptions=[MEM, "circuits of up to 3 gates enumerated fully (n=4), deeper chains and wide batches selected"]),
})

CHECKS.update({
    "C21": dict(level="exploration", runs=[dict(sources=[H + "c21.cc"], variant="fast")], technique="exhaustive enumeration of all operand pairs of structured sets and of all of small fields/moduli vs. limb arithmetic",
                rule="one evaluation = one operation on one operand (pair), compared with independent limb arithmetic; distinct = distinct left operands / moduli",
                assumptions=["operands of the two Mersenne fields range over all values 2^i+-2^j and 2^i+-c and their negatives, not all 2^61 or 2^127 values"]),
    "C22": dict(level="exploration", runs=[dict(sources=[H + "c22.cc"], variant="asanub"), dict(sources=[H + "c22.cc"], variant="fast")], technique="exhaustive enumeration of structured values, list lengths, alignments and short byte strings vs. arithmetic oracle",
                rule="one evaluation = one conversion of one value/list at one alignment; distinct = distinct values, lengths and byte strings",
                assumptions=["values range over byte-wise, bit-wise and decimal boundary patterns"]),
})
CHECKS.update({
    "C23": dict(level="model_checking", technique="depth-first enumeration of request/copy/reset histories on real generators vs. FIPS-197 reference",
                runs=[dict(sources=[H + "c23.cc"], variant="asanub"), dict(sources=[H + "c23.cc"], variant="fast"),
                      dict(sources=[H + "c23.cc"], variant="fast", defines=["-DPRG_INITIAL_COUNTER=0xFFFFFFF0L", "-DINIT_CTR=0xFFFFFFF0ULL"]),
                      dict(sources=[H + "c23.cc"], variant="fast", defines=["-DPRG_INITIAL_COUNTER=0x7FFFFFFFFF000000L", "-DINIT_CTR=0x7FFFFFFFFF000000ULL", "-DPRG_NONCE=0xFEDCBA9876543210", "-DMODEL_NONCE=0xFEDCBA9876543210ULL"])],
                rule="one evaluation = one request compared byte by byte; state = (seed, positions of two generator objects)",
                assumptions=["the documented macros PRG_INITIAL_COUNTER and PRG_NONCE are used to reach counters around 2^32 and 2^63", "the CPU has AES instructions"]),
    "C24": dict(level="exploration", runs=[dict(sources=[H + "c24.cc"], variant="asanub"), dict(sources=[H + "c24.cc"], variant="fast", hang=400)], technique="exhaustive enumeration of message lengths and divisions into updates vs. FIPS-202 reference",
                rule="one evaluation = one digest of one message under one division; distinct = message lengths x division families",
                assumptions=["all lengths up to 2 blocks (4 thorough), longer ones around round sizes; five content patterns and single-bit messages"]),
})
CHECKS.update({
    "C25": dict(level="exploration", runs=[dict(sources=[H + "c25.cc"], variant="asanub"), dict(sources=[H + "c25.cc"], variant="fast")], technique="exhaustive enumeration of shapes, bounds and small-field contents vs. definitions",
                rule="one evaluation = one operation result compared entry by entry; distinct = shapes x field",
                assumptions=["shapes up to 6x6 (8x8 thorough); all contents only over F_2 and F_3 with up to 4 entries"]),
    "C26": dict(level="exploration", runs=[dict(sources=[H + "c26.cc"], variant="asanub")], technique="exhaustive enumeration of format strings and argument kinds through every logger vs. textual substitution",
                rule="one evaluation = one call of one logger; distinct = format strings",
                assumptions=["formats of up to 6 characters exhaustively, longer ones selected; 8 argument kinds, up to 8 arguments"]),
})
TINY = lambda src, p, **k: dict(sources=[H + src], variant="fast", without=["prg.cc"], preinclude=["lib/tiny.h"], defines=["-DMODEL_P=%d" % p], **k)
CHECKS.update({
    "C07": dict(level="model_checking", runs=[TINY("c07.cc", p) for p in (2, 3, 5, 7)], technique="exhaustive enumeration of all generator outputs of the real sharing code over small fields; exact comparison of view distributions",
                rule="one evaluation = one execution under one assignment of generator outputs; distinct = view histograms; state = complete sharings",
                assumptions=["fields F_2, F_3, F_5, F_7 in place of the large prime (the code is field-generic); generator outputs are uniform field elements"]),
})
CHECKS.update({
    "C10": dict(level="model_checking", runs=[TINY("c10.cc", p) for p in (2, 3, 5)] + [TINY("c10.cc", 7, thorough_only=True), dict(sources=[H + "c10b.cc"], variant="fast")], technique="exhaustive enumeration of all generator outputs unknown to a coalition, on the real protocols over small fields; exact comparison of view distributions",
                rule="one evaluation = one joint execution under one assignment of the unknown generator outputs; distinct = view histograms; state = coalition views",
                assumptions=[MEM, "fields F_2..F_7 in place of the large prime (the code is field-generic)", "outputs known to the coalition are fixed to several assignments (a view contains them, so each is a separate conditional comparison)",
                             "every protocol instance is given correlator state of its own: a correlator object passed to two instances is copied into both"]),
})

SCHED = [("lib/vsched.cc", ["-O2"]), ("lib/vkernel.cc", ["-O2"])]
WRAP = ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"]
def E2(src, race, **k):
    """controlled scheduler and simulated kernel; race: with the race detector"""
    if race:
        return dict(sources=[H + src] + SCHED + [("lib/race.cc", ["-O2"])], variant="race", ldflags=WRAP, **k)
    return dict(sources=[H + src] + SCHED, variant="fast", **k)
CHECKS.update({
    "C17": dict(level="model_checking", runs=[E2("c17.cc", True, repo_sources=False)], technique="stateless exploration of all interleavings of the real queue (dynamic partial-order reduction, controlled scheduler), linearizability and happens-before race checking of every execution",
                rule="one evaluation = one complete execution checked for linearizability and races; state = distinct history outcomes; distinct = scripts",
                assumptions=["sequentially consistent execution of race-free code (races are reported)", "scripts of up to 6 operations (8 thorough), up to 3 producers, at most one spurious wake-up"]),
})
SIM = "simulated sockets: bounded in-order byte streams, blocking calls, partial transfers; writing to a connection the peer closed raises SIGPIPE unless that is turned off, and then reports EPIPE"
CHECKS.update({
    "C13": dict(level="model_checking", runs=[E2("c13.cc", False, set="local"), E2("c13.cc", False, set="pair"), E2("c13.cc", False, set="many"), E2("c13.cc", False, set="typed"), E2("c13.cc", True, set="pair", thorough_only=True)],
                technique="stateless exploration of all schedules up to a deviation bound and all short reads/writes up to a bound, of the real network stack under a controlled scheduler and simulated kernel",
                rule="one evaluation = one complete execution whose received bytes all matched; state = schedules; distinct = scenarios", assumptions=[SIM]),
})
CHECKS.update({
    "C14": dict(level="model_checking", runs=[E2("c14.cc", False, set="all"), E2("c14.cc", False, set="bounded"), E2("c14.cc", True, set="networks")],
                technique="stateless exploration of the real channels and networks: all interleavings (dynamic partial-order reduction) of one channel, all schedules up to a deviation bound of whole networks; simulated kernel; race detection",
                rule="one evaluation = one complete execution in which every byte arrived, every close returned and no closed descriptor was touched; state = schedules; distinct = scenarios",
                assumptions=[SIM, "every party reads what is addressed to it before it closes (two parties that both stop reading while full buffers separate them wait for each other, which no flushing close can avoid)"]),
})
CHECKS.update({
    "C15": dict(level="model_checking", runs=[E2("c15.cc", False), E2("c15.cc", True)],
                technique="stateless exploration of all start-up schedules up to a deviation bound, of the real network stack under a controlled scheduler and simulated kernel; race detection",
                rule="one evaluation = one complete start-up with the connections of the simulated kernel compared with the required pairing and identities exchanged; state = schedules; distinct = configurations",
                assumptions=[SIM, "all parties share one simulated host; a dial of a port nobody listens on is refused at once"]),
    "C28": dict(level="model_checking", runs=[E2("c28.cc", False)],
                technique="stateless exploration of all schedules up to a deviation bound, of the real network stack under a controlled scheduler, with a descriptor ledger in the simulated kernel",
                rule="one evaluation = one complete execution whose ledger balances; state = schedules; distinct = configurations", assumptions=[SIM, "a network that was connected is closed before it is destroyed (C29 covers the others)", "closing may report unread traffic as a lost connection"]),
})
CHECKS.update({
    "C16": dict(level="fault_enumeration", runs=[E2("c16.cc", False)],
                technique="exhaustive enumeration of injected faults (every system call of each history x every listed error, lost connections, short transfers; one and two faults) x schedules up to a deviation bound, on the real network stack over a simulated kernel",
                rule="one evaluation = one complete execution with its faults; state = schedules and faults; distinct = histories x fault families",
                assumptions=[SIM, "a failed read or write breaks its connection for both ends; what arrived before can still be read", "an interrupted call (EINTR) during transfers is outside the claim"]),
})
CHECKS.update({
    "C18": dict(level="model_checking", runs=[E2("c18.cc", False), E2("c18.cc", True)],
                technique="stateless exploration of all schedules up to a deviation bound, of the real protocols over the real network stack under a controlled scheduler and simulated kernel, every party's results compared with a sequential execution; happens-before race detection",
                rule="one evaluation = one complete joint execution whose results all equal the sequential ones; state = schedules; distinct = protocol runs x default schedules",
                assumptions=[SIM, "four parties for schedules with deviations (five for one default schedule), up to eight (ten thorough) under five default schedules"]),
})
CHECKS.update({
    "C19": dict(level="model_checking", runs=[E2("c19.cc", False)],
                technique="exhaustive enumeration of all sequences of configuration calls up to a depth on the real builder vs. a model of the settings in force; every network built is connected to reference peers in the simulated kernel",
                rule="one evaluation = one attempt to build after one sequence of calls; state = settings in force; distinct = sequences that lead to a network",
                assumptions=[SIM, "configuration calls from an alphabet of 24 (36 for the complete configurations); a base port below 1024 or above 65534 counts as unusable", "when all parties are declared local, addresses from a connection file are not used"]),
})
CHECKS.update({
    "C20": dict(level="model_checking", runs=[E2("c20.cc", False)],
                technique="exhaustive enumeration of all send/receive histories up to a depth on the real network stack over a simulated kernel; every printed summary vs. an independent count",
                rule="one evaluation = one printed summary compared with the count; state = executions; distinct = histories",
                assumptions=[SIM, "histories of up to 3 operations (4 thorough) of one party with itself and two peers; one run with more than 2^32 bytes"]),
})
def EXP(prog, race, **k):
    r = E2("c27.cc", race, repo_extra=["src/frn/exp_%s.cc" % ("input", "mult", "check")[prog]], defines=["-DPROGRAM=%d" % prog], **k)
    return dict(r, ldflags=r.get("ldflags", []) + ["-Wl,--wrap=__libc_start_main,--wrap=exit,--wrap=quick_exit"])
CHECKS.update({
    "C27": dict(level="model_checking", runs=[EXP(p, False) for p in (0, 1, 2)] + [EXP(p, True) for p in (0, 1, 2)],
                technique="stateless exploration of all schedules up to a deviation bound of the real programs (their own main) under a controlled scheduler and simulated kernel; enumeration of argument vectors",
                rule="one evaluation = one complete joint execution whose reports agree with one another and with the protocol's messages, or one start with given arguments; state = schedules; distinct = configurations",
                assumptions=[SIM, "one process per party is represented by one controlled thread whose descriptors are closed when its main returns"]),
})
CHECKS.update({
    "C29": dict(level="model_checking", runs=[E2("c29.cc", False), E2("c29.cc", True)],
                technique="stateless exploration of all schedules up to a deviation bound and of injected faults, of networks given up at every point, under a controlled scheduler with a descriptor ledger in the simulated kernel",
                rule="one evaluation = one complete execution in which every network could be destroyed, its threads had ended and the ledger balanced; state = schedules and faults; distinct = scripts x fault families",
                assumptions=[SIM]),
})
