"""tools/mutate.py OUT SEED PER_FILE: single-line mutants of /repo's sources as patches, to look for gaps in the checks.
Run one with tools/mutant.sh."""
import difflib, os, random, re, subprocess, sys
out, seed, per = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
only = sys.argv[4:]
MAP = [("viterbi|lindera-tokenizer/src/tokenizer", "T02 T03 T07 T06 T01 T04 T05 T08 P02 P04"), ("tokenizer/src/token.rs", "T01 T05 P01"),
       ("mode.rs", "T07 P02"), ("prefix_dict|word_entry", "T01 T02 T05 D01 D04 D05 P04"),
       ("character_definition", "D03 T03 D05 P04"), ("unknown_dictionary", "D03 T03 T05 D05"), ("connection", "D02 T02 D05"), ("core/src/dictionary.rs", "T05 D05"),
       ("dictionary-builder/src/user_dict", "D04 T04 D05"), ("dictionary-builder/src/dict.rs", "D01 D05 T05"), ("cost_matrix", "D02 D05"), ("chardef|unk.rs", "D03 D05"),
       ("-builder/src/.*_builder|dictionary-builder", "D04 D01 D03 D05 D02"), ("lindera-dictionary/src", "D04 D05 P02 D07"),
       ("lindera-(ipadic|unidic|ko-dic|cc-cedict|ipadic-neologd)/src", "D07"), ("compress/src", "D06 D07"),
       ("analyzer.rs", "F03 P01 P02 T08"), ("iteration_mark", "F02 F03 P02 P04"), ("character_filter", "F01 F03 P02 P01 P04"),
       ("compound_word", "K03 P02"), ("japanese_number", "K04 P02 P04"), ("(keep|stop)_|length", "K01 P02"), ("token_filter", "K02 P02 P01 P04"), ("cli", "P03"), ("core/src", "D05 D04 T02")]
OPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<=>\-])<(?![<=a-zA-Z'])", "<="), (r"(?<![-=>])>(?![>=])(?= )", ">="), (r"==", "!="), (r"!=", "=="),
       (r"&&", "||"), (r"\|\|(?! *[{\w])", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "),
       (r"\.\.=", ".."), (r"\b(\d+)\b(?!\.)", lambda m: str(int(m.group(1)) + 1)), (r"\b([1-9]\d*)\b(?!\.)", lambda m: str(int(m.group(1)) - 1)),
       (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"), (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""), (r"\.trim\(\)", ""), (r"\bif !", "if "), (r"\bif (?!let|!)", "if !"),
       (r"\.min_by_key", ".max_by_key"), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\.is_empty\(\)", ".len() == 1"), (r"left", "right"), (r"right", "left"), (r"start", "end"), (r"\bNone\b", "Default::default()"),
       (r"\bfirst\(\)", "last()"), (r"\blast\(\)", "first()"), (r"\+=", "-="), (r"\+=", "="), (r"\bany\(", "all("), (r"\ball\(", "any("), (r"\.filter\(\|[^|]*\| [^)]*\)", ""), (r"\?;$", ".ok();"),
       (r"u16", "u8"), (r"as u32", "as u16 as u32"), (r"\"([A-Za-z_*.]+)\"", lambda m: '"' + m.group(1)[:-1] + '"'), (r"^(\s+)([a-z_.]+\.(?:push|insert|extend|sort\w*|dedup\w*|clear|reverse|truncate)\(.*\);)$", r"\1// \2"),
       (r"^(\s+)([a-z_.\[\]]+ [-+*]?= .*;)$", r"\1// \2"), (r"^(\s+)return .*;$", r"\1"), (r"get\((\d)\)", lambda m: f"get({int(m.group(1)) + 1})"), (r"\.chars\(\)\.count\(\)", ".len()"), (r"\.len\(\)", ".chars().count()")]
rng = random.Random(seed)
files = subprocess.check_output(["git", "-C", "/repo", "ls-files", "*.rs"]).decode().split()
files = [f for f in files if not re.search(r"/tests/|benches|examples|build\.rs|lindera/src", f) and (not only or any(re.search(o, f) for o in only))]
os.makedirs(out, exist_ok=True)
n = 0
for f in files:
    text = open("/repo/" + f).read()
    i = text.find("#[cfg(test)]")
    head = text if i < 0 else text[:i]
    lines = head.split("\n")
    cands = []
    for k, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "use ", "#[", "pub mod", "mod ", "///", "extern", "pub use", "license")) or "anyhow!" in s:
            continue
        for a, b in OPS:
            for m in re.finditer(a, l):
                new = l[:m.start()] + (m.expand(b) if isinstance(b, str) else b(m)) + l[m.end():]
                if new != l:
                    cands.append((k, new))
    cands = sorted(set(cands))
    rng.shuffle(cands)
    checks = next((c for p, c in MAP if re.search(p, f)), "T02 P01")
    quota = max(1, min(len(cands), round(per * len(cands) ** 0.5 / 8)))
    for k, new in cands[:quota]:
        ls = lines[:]
        ls[k] = new
        t2 = "\n".join(ls) + (text[i:] if i >= 0 else "")
        d = "".join(difflib.unified_diff(text.splitlines(True), t2.splitlines(True), "a/" + f, "b/" + f))
        n += 1
        with open(f"{out}/{n:04d}.diff", "w") as o:
            o.write(d)
        with open(f"{out}/{n:04d}.checks", "w") as o:
            o.write(checks + "\n")
ids = list(range(1, n + 1))
rng.shuffle(ids)
open(f"{out}/order", "w").write("\n".join(f"{x:04d}" for x in ids) + "\n")
print(n)
