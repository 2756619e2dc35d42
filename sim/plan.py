"""Which scenarios decide which property: (scenario, simulator variant, share of the time)."""
# what is not given back, given back twice or used after that
RELEASE = ("leak", "left-behind", "fd-leak", "accounting", "use-after-free", "bad-free", "host-fd-misuse", "thread-leak", "thread-misuse")
PLAN = {
    "P01": {"runs": [("prog", "dbg", 3), ("prog", "rel", 3), ("prog", "usched", 1), ("prog", "prealloc", 1)]},
    "P02": {"runs": [("intr", "dbg", 2), ("intr", "rel", 2)]},
    "P03": {"runs": [("atomics", "dbg", 2), ("atomics", "rel", 2), ("atomics", "usched", 1)]},
    "P04": {"runs": [("wait", "dbg", 2), ("wait", "rel", 2), ("wait", "usched", 1)]},
    "P05": {"runs": [("grow", "dbg", 2), ("grow", "rel", 2), ("grow", "prealloc", 1)]},
    "P06": {"runs": [("spawn", "dbg", 2), ("spawn", "rel", 2), ("spawn", "usched", 1)]},
    "P07": {"runs": [("exit", "dbg", 2), ("exit", "rel", 2), ("exit", "usched", 1)]},
    "P08": {"runs": [("fd", "dbg", 2), ("fd", "rel", 2)]},
    "P09": {"runs": [("stream", "dbg", 2), ("stream", "rel", 2)]},
    "P10": {"runs": [("poll", "dbg", 2), ("poll", "rel", 2)]},
    "P11": {"runs": [("file", "dbg", 2), ("file", "rel", 2)]},
    "P12": {"runs": [("load+end", "dbg", 2), ("load+end", "rel", 1), ("oom+end", "dbg", 2), ("oom+end", "rel", 1), ("intr+end", "dbg", 2), ("exit+end", "dbg", 2), ("exit+end", "rel", 1),
                     ("spawn+end", "dbg", 2), ("spawn+end", "rel", 1), ("fd+end", "dbg", 2), ("fd+end", "rel", 1), ("stream+end", "dbg", 1), ("file+end", "dbg", 1), ("file+end", "rel", 2),
                     ("dir+end", "dbg", 1), ("poll+end", "dbg", 1), ("hostmem+end", "dbg", 1), ("wait+end", "dbg", 1), ("grow+end", "dbg", 1), ("prog+end", "rel", 1),
                     ("cli+end", "dbg", 2), ("cli+end", "rel", 1), ("dyld+end", "dbg", 2), ("dyld+end", "rel", 1), ("save+end", "rel", 1), ("spawn+end", "usched", 1)],
            "kinds": RELEASE, "quick_s": 80},
    "P13": {"runs": [("load", "dbg", 3), ("load", "rel", 2)]},
    "P14": {"runs": [("oom", "dbg", 3), ("oom", "rel", 2)]},
    "P15": {"runs": [("mem", "dbg", 2), ("mem", "rel", 2), ("mem", "usched", 1)], "quick_s": 30},
    "P16": {"runs": [("sched", "usched", 4), ("exit", "usched", 2), ("spawn", "usched", 1), ("atomics", "usched", 1), ("wait", "usched", 1), ("stream", "usched", 1),
                     ("poll", "usched", 1), ("fd", "usched", 1), ("hostrace", "usched", 1), ("intr", "usched", 1), ("grow", "usched", 1)]},
    "P17": {"runs": [("dir", "dbg", 2), ("dir", "rel", 2)]},
    "P18": {"runs": [("hostmem", "dbg", 2), ("hostmem", "rel", 1), ("hostrace", "dbg", 2), ("hostrace", "rel", 1)]},
    "P19": {"runs": [("cli", "dbg", 3), ("cli", "rel", 2), ("cli", "usched", 1)]},
    "P20": {"runs": [("dyld", "dbg", 3), ("dyld", "rel", 2)]},
    "P21": {"runs": [("save", "dbg", 2), ("save", "rel", 2)]},
}
