#!/usr/bin/env python3
"""Writes MANIFEST.json.  CLAIMED: property -> (level, technique, note)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "exhaustive enumeration of operation histories on the real code against a reference model"
CLAIMED = {
 "C01": ("model_checking", H, "All operation sequences up to the stated depth on the real txlogs.DB, every prefix compared with an independent replay. Trusts the reference replay (60 lines); deeper histories and unbounded values are not covered."),
 "C02": ("model_checking", H, "All sequences of operations and transaction commands up to the stated depth, including snapshots in the middle and transaction functions that fail at every step."),
 "C03": ("model_checking", H, "Every log up to the stated depth, every version (and beyond) and every entry, against replaying the shortened log."),
 "C04": ("model_checking", H, "Every log up to the stated depth saved and reloaded, values over an alphabet of awkward strings, every truncation and single byte change of documents for robustness."),
 "C05": ("model_checking", "exhaustive enumeration of pairs of forked histories and their timestamp orders through the real merge", "All pairs up to the stated number of operations per side and all weak timestamp orders, ties and backward clocks included."),
 "C06": ("model_checking", "exhaustive enumeration of replica sets and hub schedules through the real merge", "All two- and three-replica forks and all hub schedules up to the stated depth, all merge orders. Assumes replicas do not produce the very same transaction (to the nanosecond) independently."),
 "C07": ("model_checking", "exhaustive enumeration of conflicting histories and of all resolution assignments through the real merge", "Reference list of conflicts and reference resolved log for every fork and every answer within the bounds."),
 "C08": ("model_checking", "exhaustive enumeration of user sets, payload lengths and re-encryption histories on the real code, checked by an independent codec", "scrypt is replaced by a cheap stub in most cases (cost is checked by C10)."),
 "C09": ("fault_enumeration", "exhaustive enumeration of damage (every truncation, every byte change, block swaps, wrong credentials) on the real decryption", "Single-byte and structural damage of a set of small files; random multi-byte forgeries are not covered."),
 "C10": ("model_checking", "exhaustive enumeration of files written and read by an independent implementation of the format, and of randomness failures at every read", "The independent codec shares only the primitive cipher implementations with the code under test; golden files come from the base commit."),
 "C11": ("exploration", "exhaustive enumeration of lengths, block sizes and final bytes", "Every block size and every length up to the bound."),
 "C12": ("exploration", "exhaustive enumeration of search and name pairs up to a length over an alphabet of multi-byte, case-varying and malformed text", "Length and alphabet bounded."),
 "C13": ("model_checking", H, "All histories of naming operations up to the stated depth over colliding names; all name assignments of merged entries for the repair of duplicates."),
 "C14": ("model_checking", H, "All histories up to the stated depth; every letter case of every protected name."),
 "C15": ("model_checking", "exhaustive enumeration of queries over databases holding every name and label list up to a length, and of histories with all queries after every step", "Reference matching by dynamic programming; alphabet and length bounded."),
 "C16": ("model_checking", H, "All histories up to the stated depth on the label operations, all indices around the list."),
 "C17": ("model_checking", "exhaustive enumeration of secrets, parameters and clock positions under a virtual clock against an independent RFC 6238 computation", "Clock positions are all window boundaries (before, at, after) of chosen windows between 2000 and 2255; hash functions are trusted."),
 "C18": ("model_checking", "exhaustive enumeration of settings and of random byte sequences (every byte, every value) on the real generator, and of dialogues with the real program", "Random byte sequences are constant or counting with one or two bytes replaced by every value; uniformity of the distribution is not judged."),
"C19": ("model_checking", "exhaustive enumeration of command sequences, ways to end and chains of sessions of the real program; the file is read with an independent codec and compared with the session's state", "The terminal and the key derivation are replaced; the crypt layer itself is checked by C09 to C12."),
"C20": ("fault_enumeration", "all crash points and torn writes of recorded real saves in a crash model of the file system (names and contents durable separately), and a kill, error or short transfer injected by a tracer at every file operation (and pairs) of real sessions", "Crash states are those of the model; the model is bound to the code by replaying the recorded operations and comparing with the real file, and by the injected runs."),
"C21": ("model_checking", "exhaustive enumeration of opening times around all change times, snapshot versions and modifying commands on the real program, compared with a replay of the changes up to that time", "Times of changes do not decrease along the history; the watched remote is a local file."),
"C22": ("model_checking", "exhaustive enumeration of histories of user, password, rename, removal and reopen steps on the real program; every name with every password ever used is tried with an independent codec against a model of who may open the file", "Key derivation replaced by an injective cheap one."),
"C23": ("model_checking", "exhaustive enumeration of schedules of edits and synchronisations of up to three replicas of the real program through one or two remotes with every answer to each conflict, compared with a reference merge", "Synchronisations do not overlap in time; changes of two replicas never carry the same time on one entry; depths as stated in the evidence."),
"C24": ("fault_enumeration", "exhaustive enumeration of kinds of bad remotes with all answers, of a kill, error or short transfer injected at every file operation on the remote, and of credential changes on both sides, on the real program, compared with a reference", "File remotes; ssh remotes are covered by C25 and C26. Synchronisations do not overlap in time."),
"C25": ("model_checking", "exhaustive enumeration of recorded host key lines, server keys, answers, credentials and chains of sessions of the real program against an ssh server that records what it is sent", "The server is in the harness (x/crypto/ssh); keys of each type from a small set; authentication and commands are what counts as secrets sent."),
"C26": ("fault_enumeration", "exhaustive enumeration of server scripts: every answer replaced, cut or split at every byte, contents and names from a set, connection losses at every byte, on the real transfer code over a real ssh connection; the real scp program as a remote for conformance", "A server that stays silent for ever is out of scope (no time limits in the code)."),
 "C27": ("model_checking", "exhaustive enumeration of csv rows, row pairs and database contents imported by the real program, against an independent csv reader and reference import", "lpass is a stand-in; fields over an alphabet of awkward texts; values with carriage return + newline are left out."),
 "C28": ("model_checking", "exhaustive enumeration of databases, snapshot positions and output targets exported by the real program, parsed back by independent readers", "Row and column order are free."),
 "C29": ("fault_enumeration", "exhaustive enumeration of editor behaviours (every way to write, replace, fail, be interrupted) and sequences of edits in the real program", "The editor is a script that keeps links to the temporary file; the program being killed while the editor runs is left out."),
 "C30": ("fault_enumeration", "exhaustive enumeration of copy commands, entry shapes, session ends (signals included) and clipboard failures in the real program", "The clipboard is a stand-in for xclip that records what it gets."),
 "C31": ("fault_enumeration", "exhaustive enumeration of passphrases, of deviations at every step of the conversation and of call sequences against the real client", "The pinentry program is a stand-in; one that stops answering but stays is left out."),
 "C33": ("fault_enumeration", "exhaustive enumeration of answers, with end of input, interrupt and terminal failure at every question, in the real program", "RSA keys are made in few executions; accounts are used against an ssh server inside the harness."),
"C32": ("model_checking", "exhaustive enumeration of shell lines (all commands, all argument lists from a small vocabulary, odd lines, all sequences of representative lines) typed into the real program, compared after every line with an executable reference model of the shell", "The terminal and the key derivation are replaced; entry names are unique."),
 "C34": ("model_checking", "exhaustive enumeration of command sequences, ways to end and subcommands of the real program with recognisable secrets; output, prompts, history, every traced file write, child arguments and environment and all files left are searched", "A secret is recognised in plain text only (seven characters of it); the terminal and the key derivation are replaced."),
 "C36": ("model_checking", "exhaustive enumeration of sequences of commands, lines and questions of the real program with Tab pressed; candidates compared with the replayed history, whole sessions compared with those without Tab", "The line editor library's completion code is the original; its terminal is replaced."),
 "C35": ("exploration", "exhaustive enumeration of command lines, environments and sets of existing files on the real program", "Paths with characters that need care in shells are left to C20 and C32."),
}
NOT = {}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        lv, t, n = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick ./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": lv, "level_note": n})
    else:
        na.append({"property": i, "reason": NOT.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./run.sh warm",
     "hooks": {"guard": "verif", "enable": "no hooks are needed: /repo is built as it is, two dependencies (x/crypto/scrypt, aarondl/readline) are replaced through -modfile", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. known_findings.txt lists defects fixed and known."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
