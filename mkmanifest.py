"""Regenerates MANIFEST.json from the table below (python3 mkmanifest.py)."""
import json
import os

ASSUME = ("Assumes the asyncio semantics reproduced by harness/simloop.py (selector event loop of CPython 3.12) and the "
          "driver's projection of observations to JSON; the oracle is the TLA+ module.")
T = {
    "C01": ("TLA+/TLC: Auth.tla exchange model, all model exchanges replayed on the real server, monitored in TLA+",
            "All exchanges of the Auth model (4 configurations, 11 users, every route) explored exhaustively by TLC; a seeded "
            "third of them (all, in thorough) replayed with trailing and pipelined commands."),
    "C02": ("TLA+/TLC: Auth.tla with symbolic scrambles; every bit flip/truncation by every route replayed",
            "SHA1 is symbolic in the model; the driver computes real scrambles."),
    "C03": ("TLA+/TLC: client automaton over response bytes (Wire/Lockstep.tla), TLC-enumerated command programs replayed",
            "All programs of 3 commands of the design model explored by TLC; a seeded selection and long concatenations are "
            "run on the real server under random capability pairs."),
    "C04": ("TLA+/TLC: packetiser/reassembler with small MAXP exhaustive; recorded packet lengths and conversations judged",
            "Every 1-cut and (thorough: 2-cut) segmentation of reference conversations, with and without TLS; payload "
            "sizes around k*(2^24-1)."),
    "C05": ("TLA+/TLC: byte-level text and binary row decoder in TLA+ applied to recorded results",
            "Generated results over all column types, NULL patterns and both protocols; floats are compared by Python."),
    "C06": ("TLA+/TLC: SQL lexer over characters in TLA+ relates prepared text, parameter values and the text received",
            "Generated templates, parameter tuples and chunkings."),
    "C07": ("TLA+/TLC: message-format model enumerates mutations; outcome of each injected packet judged by the model",
            "Work measured as CPU time and allocated memory per packet, in processes with limits."),
    "C08": ("TLA+/TLC: product automaton of connections; interleaved runs of the real server judged against solo runs",
            "Interleavings enumerated by TLC for short programs, random for long ones."),
    "C09": ("TLA+/TLC: kill model; kills injected at every event-loop iteration of the real server and judged",
            "One kill at every loop iteration, two kills sampled."),
    "C10": ("TLA+/TLC: connection lifetime model; faults at every byte/write/callback of the real server judged",
            "Every single fault of the reference conversations, pairs sampled."),
    "C11": ("TLA+/TLC: cursor model, all behaviours of the model replayed on the real server",
            "Exhaustive for small results and fetch sizes, random beyond."),
    "C12": ("TLA+/TLC: producer/buffer/socket model; recorded pull/accept histories judged",
            "Bounds on look-ahead and on rows between a command and its answer are generous constants."),
    "C13": ("TLA+/TLC: routing model over statement classes and database selections; generated texts replayed",
            "Statement lists enumerated by TLC up to length 3, random beyond."),
    "C14": ("TLA+/TLC: reference model of the variable store; histories of SET/reads/hints replayed and judged",
            "Histories enumerated by TLC for small stores, random over all variables."),
    "C15": ("TLA+/TLC: model of the character-set state; every channel under every set judged",
            "Reference codecs are Python's, chosen independently of the library's table."),
    "C16": ("TLA+/TLC: catalog rows and LIKE matcher as TLA+ operators, compared with the server's answers",
            "Generated schemas, current databases and patterns."),
    "C17": ("TLA+/TLC: byte-level parser of COM_QUERY/COM_STMT_EXECUTE in TLA+ compared with what the application received",
            "Generated packets over all types and counts."),
    "C18": ("TLA+/TLC: id allocator model exhaustive at small scale and replayed; full-scale histories judged",
            "Full-scale (65536) histories are sampled."),
}
N = ["C%02d" % i for i in range(1, 19)]
checks = []
na = []
for p in N:
    if p in T and os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks", p.lower() + ".py")):
        cmd = "/opt/venv/bin/python checks/%s.py" % p.lower()
        checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick " + cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                       "technique": T[p][0], "level": "model_checking", "level_note": T[p][1] + " " + ASSUME})
    else:
        na.append({"property": p, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); from harness import world\"",
           "checks": checks, "not_applicable": na,
           "notes": "All oracles are TLA+ modules in spec/, evaluated by TLC. No hooks in /repo."}, open("MANIFEST.json", "w"), indent=1)
