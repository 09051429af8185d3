"""What each property's check runs: model-checked modules, harness domains, trace specifications."""


def mc_tok(rich_in_thorough=True):
    return {"module": "MC_Tok", "export": True, "consts": {}, "thorough": {"MaxLen": 4}}


MC_SCALE = {"module": "MC_Scale", "export": False, "consts": {}, "thorough": {"XLen": 3}}


def tok(name, profile, quick, thorough, mc=None, maxlen=10, limit=20, long=15, sample=20, scale=12):
    return {
        "name": name, "dom": "tok", "trace": "Trace_Tok",
        "mc": ([mc] if mc else []) + ([MC_SCALE] if profile in ("min", "dec") else []),
        "args": ["--profile", profile, "--maxlen", maxlen, "--limit", limit],
        "quick": ["--worlds", quick[0], "--texts", quick[1], "--long", long, "--sample", sample, "--scale", scale],
        "thorough": ["--worlds", thorough[0], "--texts", thorough[1], "--long", 10 * long, "--longlen", 300, "--sample", 100, "--scale", 15 * scale],
    }


TOK_NOTE = ("The state machine of Tokenizer.tla is checked exhaustively by TLC on small worlds (all texts up to the bound), "
            "and every recorded run of the real tokenizer on those worlds and on seeded random worlds and texts is validated step by step "
            "against it. Bounded by the worlds and texts explored; trusts TLC and the harness that records observations.")

TOK_ASSUME = ["every category has an unknown-word entry", "costs fit in 16 bits, so 32-bit path sums do not overflow"]

def cuts(job):
    job["quick"] += ["--cuts", 40]
    job["thorough"] += ["--cuts", 1]
    return job


def chain(name, profile, quick, thorough, sample, maxlen=9):
    return {
        "name": name, "dom": "chain", "trace": "Trace_Chain",
        "mc": [{"module": "MC_Chain", "export": True, "consts": {}, "thorough": {"MaxLen": 4}},
               {"module": "MC_ChainScale", "consts": {"MaxLen": 2}, "thorough": {"MaxLen": 3}}],
        "args": ["--profile", profile],
        "quick": ["--n", quick, "--sample", sample[0], "--maxlen", maxlen, "--scale", 150],
        "thorough": ["--n", thorough, "--sample", sample[1], "--maxlen", maxlen + 3, "--long", 300, "--scale", 2000],
    }


CHAIN_NOTE = ("The chain of character filters is a state machine (one filter per step) in Chain.tla/CharFilter.tla: longest-match mapping, "
              "a backtracking regular-expression semantics, Unicode normalization and iteration marks. TLC model-checks it on every chain of a "
              "pool x every text up to the bound; the same scenarios and seeded random filters and texts run on the real filters and analyzer, "
              "and TLC validates every recorded step. Texts of up to a megabyte are (x S)^n with a separator S that no filter touches; they are judged piece by piece, which "
              "MC_ChainScale justifies. All kana x marks are enumerated (F02). Bounded by the filters and texts explored; the Unicode character tables come from the "
              "unicode-normalization crate.")

def tf(name, profile, quick, thorough, sample, mc=None):
    return {
        "name": name, "dom": "tf", "trace": "Trace_TF",
        "mc": [mc or {"module": "MC_TF", "export": True, "consts": {}, "thorough": {"MaxToks": 4}}],
        "args": ["--profile", profile],
        "quick": ["--n", quick, "--sample", sample[0]],
        "thorough": ["--n", thorough, "--sample", sample[1], "--maxtoks", 12],
    }


MC_NUM = {"module": "MC_Num", "export": True, "consts": {}, "thorough": {"MaxLen": 6}}
TF_NOTE = ("Token filters are a state machine over token sequences (one filter per step) in TokenFilter.tla/Number.tla. TLC model-checks it on "
           "every chain of a pool x every token sequence up to the bound (numerals: every text over eight numeral characters, against an "
           "independent integer semantics); the same scenarios and seeded random tokens, settings and chains run on the real filters, and TLC "
           "validates every recorded step. Bounded by what is explored; upper and lower case come from the standard library.")

def src(name, ty, quick, thorough, sample, big=1):
    return {
        "name": name, "dom": "src", "trace": "Trace_Src",
        "mc": [{"module": "MC_Src", "export": True, "consts": {"TYPE": '"%s"' % ty}, "thorough": {"MaxLines": 4}}],
        "args": ["--ty", ty],
        "quick": ["--n", quick, "--sample", sample[0], "--big", big],
        "thorough": ["--n", thorough, "--sample", sample[1], "--big", 4 * big, "--maxrows", 40],
    }


SRC_NOTE = ("The dictionary compiler is a state machine that reads a source line by line (Source.tla/Compile.tla). TLC model-checks it on every "
            "source of up to three lines of a pool, in every order of reading, against an index-based meaning (sorted keys, flat matrix, "
            "boundary table); the same sources and seeded random ones (and large ones given by a formula) are compiled by the real builders and "
            "loaded by the real loader, and TLC validates the verdict and every recorded lookup. Bounded by the sources and probes explored.")

MC_CONT = {"module": "MC_Contained", "export": True, "consts": {}, "thorough": {"Depth": 4}}
ALL_KINDS = '{"ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"}'

PROPS = {
    "T01": {"jobs": [tok("any", "any", (220, 30), (1500, 40), mc_tok())], "assumptions": TOK_ASSUME, "note": TOK_NOTE},
    "T02": {"jobs": [tok("min", "min", (220, 30), (1500, 40), mc_tok())], "assumptions": TOK_ASSUME, "note": TOK_NOTE},
    "T03": {"jobs": [tok("unk", "unk", (220, 30), (1500, 40), mc_tok())], "assumptions": TOK_ASSUME, "note": TOK_NOTE},
    "T04": {"jobs": [tok("user", "user", (220, 30), (1500, 40), mc_tok())], "assumptions": TOK_ASSUME, "note": TOK_NOTE},
    "T05": {"jobs": [tok("details", "details", (220, 30), (1500, 40), mc_tok()),
                     {"name": "hold", "dom": "hold", "trace": "Trace_Details",
                      "mc": [{"module": "MC_Details", "export": True, "consts": {}, "thorough": {"MaxOps": 5}}],
                      "quick": ["--worlds", 60, "--texts", 12, "--sample", 100], "thorough": ["--worlds", 600, "--texts", 30, "--sample", 100]}],
            "assumptions": TOK_ASSUME,
            "note": TOK_NOTE + " Details.tla is a second machine, of tokens in a caller's hands: details are read, replaced, taken back and copied; "
                    "TLC checks it against the meaning of a whole history, and every history of two operations, and seeded longer ones, run on real tokens."},
    "T06": {"jobs": [cuts(tok("sent", "sent", (220, 30), (1500, 40), mc_tok()))], "assumptions": TOK_ASSUME, "note": TOK_NOTE},
    "T07": {"jobs": [tok("dec", "dec", (220, 30), (1500, 40), mc_tok())], "assumptions": TOK_ASSUME, "note": TOK_NOTE},
    "F01": {"jobs": [chain("text", "text", 1500, 12000, (12, 60))], "note": CHAIN_NOTE},
    "F02": {"jobs": [chain("marks", "marks", 1500, 12000, (100, 100), 11)], "note": CHAIN_NOTE},
    "F03": {"jobs": [chain("offsets", "offsets", 1500, 12000, (12, 60))], "note": CHAIN_NOTE},
    "K01": {"jobs": [tf("select", "select", 9000, 60000, (15, 100))], "note": TF_NOTE},
    "K02": {"jobs": [tf("rewrite", "rewrite", 9000, 60000, (12, 100))], "note": TF_NOTE},
    "K03": {"jobs": [tf("compound", "compound", 9000, 60000, (35, 100))], "note": TF_NOTE},
    "K04": {"jobs": [tf("number", "number", 9000, 60000, (35, 100)), tf("numerals", "number", 3000, 20000, (100, 100), MC_NUM)], "note": TF_NOTE},
    "D01": {"jobs": [src("words", "words", 1500, 12000, (60, 40))], "note": SRC_NOTE},
    "D02": {"jobs": [src("matrix", "matrix", 1500, 12000, (60, 40), 2)], "note": SRC_NOTE},
    "D03": {"jobs": [src("defs", "defs", 2500, 20000, (60, 40))], "note": SRC_NOTE},
    "D04": {"jobs": [src("user", "user", 1500, 12000, (60, 40))], "note": SRC_NOTE},
    "D05": {"jobs": [{"name": "fault", "dom": "fault", "trace": "Trace_Fault",
                      "mc": [{"module": "MC_Fault", "export": True, "consts": {"Pairs": "TRUE"}, "thorough": {"Targets": '{"dict.da", "dict.words", "matrix.mtx", "unk.bin"}'}}],
                      "tconsts": {"Targets": '{"dict.da", "dict.vals", "dict.words", "dict.wordsidx", "char_def.bin", "unk.bin", "matrix.mtx"}'},
                      "quick": ["--n", 400, "--sample", 60], "thorough": ["--n", 6000, "--sample", 100]}],
            "note": "Fault.tla is a state machine of source and target files going bad and being repaired between builds and loads; TLC explores its "
                    "whole (finite) state space. Every single fault and pairs of faults, and seeded random histories, are replayed against the real "
                    "builders and loader with real files, and TLC validates every recorded outcome. Content of dict.da, dict.vals and dict.words that "
                    "is damaged but present is outside: the loader does not decode them."},
    "D06": {"jobs": [{"name": "codec", "dom": "codec", "trace": "Trace_Codec",
                      "mc": [{"module": "MC_Codec", "export": True, "consts": {}, "thorough": {"MaxLen": 4, "MaxOps": 3}}],
                      "quick": ["--n", 1500, "--sample", 60, "--big", 2], "thorough": ["--n", 15000, "--sample", 60, "--maxlen", 300000, "--big", 20]}],
            "note": "Codec.tla: a compressed value stands for its bytes through serialization and copies. TLC checks the machine over short byte "
                    "strings; those histories and seeded random ones (lengths at buffer and window boundaries) run on the real codec and are validated "
                    "by TLC. The codec itself is opaque, so this is bounded by the inputs tried."},
    "P02": {"jobs": [{"name": "config", "dom": "config", "trace": "Trace_Config",
                      "mc": [{"module": "MC_Config", "export": True, "consts": {"Two": "FALSE"}, "thorough": {"Two": "TRUE"}}],
                      "quick": ["--n", 1500, "--sample", 100], "thorough": ["--n", 20000, "--sample", 60]}],
            "note": "Config.tla says of every JSON value whether it is a valid filter, tokenizer or analyzer configuration and what it means (a filter of "
                    "CharFilter/TokenOps, a dictionary, user dictionary and mode), and has a machine that loads an analyzer item by item. TLC explores every "
                    "configuration that differs from a valid one in one setting (two in thorough); those and seeded random mutations are loaded by the real "
                    "code in every way there is (JSON value, bytes, file, command line flag), and TLC validates the outcome, the resulting parts and what "
                    "the filters then do to probes."},
    "P01": {"jobs": [{"name": "pipe", "dom": "pipe", "trace": "Trace_Pipe", "workers": 6,
                      "mc": [{"module": "MC_Pipeline", "export": True, "consts": {}, "thorough": {"MaxLen": 4}}],
                      "quick": ["--worlds", 60, "--confs", 12, "--texts", 3, "--sample", 6],
                      "thorough": ["--worlds", 500, "--confs", 25, "--texts", 4, "--sample", 30, "--chain", 5]}],
            "note": "Pipeline.tla is the analyzer as a machine over its stages; TLC explores every choice of filters of two pools, every short text and every "
                    "way to cut it into tokens. Real analyzers are made in five ways (by hand, cloned, from a configuration in memory and on disk, from "
                    "command line flags) over random dictionaries of every kind, with user dictionaries and both modes; the stages are also run one by one, "
                    "and TLC checks that every analysis is what the machine makes of them, with ranges traced back through the character filters."},
    "T08": {"jobs": [{"name": "session", "dom": "session", "trace": "Trace_Session",
                      "mc": [{"module": "MC_Session", "export": True, "consts": {}, "thorough": {"Depth": 11}}],
                      "quick": ["--groups", 44, "--scenarios", 80, "--random", 12, "--len", 70],
                      "thorough": ["--groups", 200, "--scenarios", 150, "--random", 40, "--len", 150]}],
            "note": "Session.tla is a machine of instances, clones and calls in flight on several threads; TLC explores all its interleavings up to a depth, "
                    "and every history of up to six events is replayed on real analyzers and tokenizers by persistent threads, as are long random ones, over "
                    "random configurations with all filters. Each result must be what a process of its own returns for that configuration and text. The "
                    "replay keeps the calls of a history in flight together but does not control the schedule inside a call."},
    "D07": {"jobs": [{"name": n, "dom": "contained", "trace": "Trace_Contained", "embed": e, "mc": [MC_CONT] if n == "contained" else [],
                      "tconsts": {"Expected": '{"ipadic-neologd", "ko-dic"}' if e == "part" else ALL_KINDS},
                      "quick": ["--n", 150, "--sample", 100], "thorough": ["--n", 1500, "--sample", 100]}
                     for n, e in (("contained", "embed"), ("compressed", "embedz"), ("some", "part"))],
            "note": "Contained.tla is a program that contains dictionaries and loads configurations; TLC explores every set of contained kinds and every "
                    "history of three loads with questions. A program with five dictionaries built into it from random sources (once plain, once "
                    "compressed), and one with two of them, replay every pair of loads of a pool and seeded random histories; TLC validates that each handle answers lookups, costs, "
                    "categories and tokenizations as the same source does once built into a directory. Bounded by the sources and questions."},
    "P03": {"jobs": [{"name": n, "dom": "cli", "trace": "Trace_Cli", "cli": e, "mc": [{"module": "MC_Cli", "export": True, "consts": {}, "thorough": {"Depth": 3, "MaxLen": 5}}] if n == "cli" else [],
                      "tiers": tiers, "tconsts": {"Embedded": ALL_KINDS},
                      "quick": ["--n", 400, "--sample", 50], "thorough": ["--n", 6000, "--sample", 100]}
                     for n, e, tiers in (("cli", "cli", ("quick", "thorough")), ("compressed", "cliz", ("thorough",)))],
            "note": "Cli.tla is a machine of commands (list, build, build -u, tokenize with every option) over directories; TLC explores every history of two "
                    "commands of a pool (three in thorough) and every short input in each format. Those histories and seeded random ones are run with the real "
                    "program (five dictionaries contained), and TLC validates exit status and every byte of standard output against what the library returns "
                    "for the trimmed lines with the dictionary, user dictionary, mode and filters that the options name."},
    "P04": {"jobs": [{"name": "total", "dom": "total", "trace": "Trace_Total", "args": ["--profile", "grid,space,long,random,huge", "--limit", 100],
                      "mc": [{"module": "MC_Total", "export": True, "consts": {"Deep": "FALSE"}, "thorough": {"Deep": "TRUE"}}],
                      "quick": ["--sample", 40, "--worlds", 150, "--n", 20, "--every", 5],
                      "thorough": ["--sample", 100, "--worlds", 8000, "--n", 30, "--every", 1, "--chunk", 7, "--len", 6000, "--heavy", 150000]},
                     {"name": "single", "dom": "total", "trace": "Trace_Total", "args": ["--profile", "space", "--limit", 100], "tiers": ("thorough",),
                      "mc": [{"module": "MC_Total", "export": True, "consts": {"Deep": "FALSE"}}],
                      "thorough": ["--every", 1, "--chunk", 1]}],
            "note": "Total.tla is the analyzer's machine with one more way out, an error. TLC checks that the reference has a result for every text of classes of "
                    "odd characters and every kind of filter and penalty, and that the machine always ends; the same configurations and texts, every character "
                    "there is, long texts (also where costs add up fast), random dictionaries, filters and arbitrary tokens are run through the real code (with "
                    "overflow and bounds checks), and TLC validates that each run ended in one of the machine's ways. Texts are bounded in length."},
}
