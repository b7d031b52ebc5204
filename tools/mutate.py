#!/usr/bin/env python3
"""Mutation testing of the checks, on copies (never on /repo): mutate.py gen | run WORKER NWORKERS.

gen lists one-token mutants of /repo's non-test Rust code in /root/mut/mutants.json; run takes every
NWORKERS-th of them, builds the harness against a copy of /repo with the mutant in it, and runs the
checks of the file's properties, then the others, until one reports a violation. Results go to
/root/mut/result.WORKER.jsonl (sources from the clone /root/mut/pristine). Not used by any check.
"""
import json, os, random, re, subprocess, sys, hashlib
OUT = "/root/mut"
SRC = "/repo/"
S = "sds/src/"
PRIO = {
 S+"scanner/mod.rs": ["P01", "P02", "P04", "P09", "P16", "P25", "P10", "P14"],
 S+"scanner/regex_rule/compiled.rs": ["P04", "P05", "P07", "P09", "P23"],
 S+"scanner/regex_rule/config.rs": ["P21", "P22", "P04"],
 S+"scanner/regex_rule/regex_store.rs": ["P17", "P23", "P18"],
 S+"scanner/regex_rule/regex_cache_store.rs": ["P17", "P18", "P04"],
 S+"scanner/shared_pool.rs": ["P18", "P17"],
 S+"scoped_ruleset/mod.rs": ["P08", "P09", "P25", "P10"],
 S+"scoped_ruleset/bool_set.rs": ["P10", "P08"],
 S+"proximity_keywords/mod.rs": ["P05", "P06", "P07", "P22"],
 S+"proximity_keywords/included_keywords.rs": ["P05", "P07"],
 S+"proximity_keywords/excluded_keywords.rs": ["P06", "P22"],
 S+"path.rs": ["P07", "P08", "P19", "P20"],
 S+"match_action.rs": ["P03", "P01", "P21", "P22"],
 S+"encoding.rs": ["P01", "P19"],
 S+"event_json.rs": ["P24"], S+"simple_event.rs": ["P24", "P01"],
 S+"parser/regex_parser.rs": ["P11", "P12"], S+"parser/ast.rs": ["P11", "P12"],
 S+"normalization/rust_regex_adapter.rs": ["P11", "P12"],
 S+"validation.rs": ["P12", "P22"],
 S+"match_validation/http_validator.rs": ["P14", "P16"],
 S+"match_validation/aws_validator.rs": ["P15", "P16"],
 S+"match_validation/validator_utils.rs": ["P15"],
 S+"match_validation/config.rs": ["P14", "P15", "P21", "P16"],
 S+"match_validation/match_status.rs": ["P14", "P15", "P16"],
 S+"stats.rs": ["P23"], S+"scanner/metrics.rs": ["P23"], S+"observability/labels.rs": ["P23", "P21"],
 S+"scanner/error.rs": ["P22"],
 "sds-bindings-utils/src/binary_encoding.rs": ["P19", "P20"],
}
for f in os.listdir(SRC+S+"secondary_validation"):
    PRIO[S+"secondary_validation/"+f] = ["P13"]
for f in os.listdir(SRC+"sds-go/rust/src/native"):
    PRIO["sds-go/rust/src/native/"+f] = ["P20", "P19"]
EXTRA = {
 S+"parser/input.rs": ["P11", "P12"], S+"parser/unicode_property_names.rs": ["P11"], S+"normalization/mod.rs": ["P11", "P12"],
 S+"scanner/scope.rs": ["P08", "P21"], S+"scanner/config.rs": ["P25", "P16"], S+"rule_match.rs": ["P01", "P16"], S+"event.rs": ["P24", "P01"],
 S+"parser/error.rs": ["P12", "P22"], S+"match_validation/match_validator.rs": ["P14"],
 "sds-bindings-utils/src/lib.rs": ["P19", "P20"], "sds-go/rust/src/lib.rs": ["P20"],
 "sds-go/go/scanner.go": ["P20"], "sds-go/go/regex_rule.go": ["P20"], "sds-go/go/rule.go": ["P20"],
}
if os.environ.get("MUT_EXTRA"): PRIO = EXTRA
MUTS = OUT + ("/mutants2.json" if os.environ.get("MUT_EXTRA") else "/mutants.json")
ALL = ["P%02d" % i for i in range(1, 26)]

def code(text):
    i = text.find("#[cfg(test)]\nmod")
    return text if i < 0 else text[:i]

OPS = [
 (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]),
 (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
 (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" \* ", [" + "]), (r" % ", [" / "]),
 (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
 (r"\.start\(\)", [".end()"]), (r"\.end\(\)", [".start()"]), (r"_start\b", ["_end"]), (r"_end\b", ["_start"]),
 (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("]),
 (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\.chars\(\)\.count\(\)", [".len()"]), (r"\.find\(", [".rfind("]),
 (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.is_ok\(\)", [".is_err()"]), (r"\.is_err\(\)", [".is_ok()"]),
 (r"\.\.=", [".."]), (r"\bcontinue\b", ["break"]), (r"\bbreak;", ["continue;"]), (r"\.rev\(\)", [""]), (r"\.trim\(\)", [""]),
 (r"\.to_ascii_lowercase\(\)", [".to_ascii_uppercase()"]), (r"\.skip\((\d+)\)", [""]), (r"\.nth\(1\)", [".nth(0)", ".nth(2)"]),
 (r"\.saturating_sub\(", [".saturating_add("]), (r"\.wrapping_", [".saturating_"]), (r"&mut \*", ["&*"]),
 (r"(?<![\w.'\"{])(\d+)(?![\w.'\"}])", ["+1"]),
 (r"(?m)^(\s*)(?:if|\} else if) (?!let)(.+) \{$", ["NOT"]),
 (r"(?m)^\s*(?:self\.|[a-z_]+\.)[a-z_.]+\([^\n]*\);\n", ["DEL"]), (r"(?m)^\s*[a-z_.*]+ (?:[-+]?)= [^\n]*;\n", ["DEL"]),
 (r"(?m)^\s*return [^\n]*;\n", ["DEL"]), (r"'([^'\\])'", ["CHR"]), (r"(?m)^\s*\.[a-z_]+\(\|[^\n]*\)\n", ["DEL"]),
 (r"\bOk\(true\)", ["Ok(false)"]), (r"\bSome\(([a-z_]+)\)(?= *[,;}\n])", ["None"]),
]

def gen():
    out = []
    for f in sorted(PRIO):
        p = SRC+f
        if not os.path.exists(p): continue
        t = code(open(p).read())
        for pat, reps in OPS:
            for m in re.finditer(pat, t):
                ls = t.rfind("\n", 0, m.start())+1
                line = t[ls:t.find("\n", m.end()-1)]
                st = line.strip()
                if st.startswith(("//", "#[", "use ", "debug_assert", "assert", "impl", "pub struct", "pub fn", "fn ")) and pat[0] == " " and "->" not in st: continue
                if st.startswith(("//", "#[", "use ", "debug_assert", "///")) or "Any + Send" in st: continue
                if line.find("//") >= 0 and ls+line.find("//") < m.start(): continue
                for r in reps:
                    if r == "+1": new = str(int(m.group(1))+1)
                    elif r == "NOT": new = m.group(0).replace(m.group(2), "!(" + m.group(2) + ")", 1)
                    elif r == "DEL": new = ""
                    elif r == "CHR": new = "'~'"
                    else: new = r
                    out.append({"file": f, "a": m.start(), "b": m.end(), "new": new, "line": t.count("\n", 0, m.start())+1, "src": st[:140], "op": pat[:30]})
    rnd = random.Random(7)
    # spread over the lines: at most three mutants per line
    rnd.shuffle(out)
    n = {}
    keep = []
    for x in out:
        k = (x["file"], x["line"])
        n[k] = n.get(k, 0)+1
        if n[k] <= 3: keep.append(x)
    for x in keep:
        x["id"] = hashlib.sha1(json.dumps([x["file"], x["a"], x["b"], x["new"]]).encode()).hexdigest()[:8]
    json.dump(keep, open(MUTS, "w"), indent=0)
    c = {}
    for x in keep: c[x["file"]] = c.get(x["file"], 0)+1
    for f in sorted(c): print(c[f], f)
    print(len(keep))

def sh(cmd, timeout=900, **env):
    e = dict(os.environ); e.update(env)
    try:
        r = subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, timeout=timeout, env=e)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, ""

def run(w, n):
    base = f"/tmp/mut/{os.environ.get('MUT_BASE', 'w')}{w}"
    V, R = base+"/verif", base+"/repo"
    if not os.path.exists(base):
        sh(f"mkdir -p {base} && git clone -q /repo {R} && git clone -q /verif {V} && cd {V} && sed -i 's#/repo#{R}#g; s#/verif#{V}#g' harness/Cargo.toml harness/src/engine.rs harness/src/props/bind.rs goexec/go.mod run.sh && cp -a /verif/target {V}/target && rm -f {V}/target/.src")
    ms = json.load(open(MUTS))
    res = f"{OUT}/result.{os.environ.get('MUT_BASE', '')}{w}.jsonl"
    done = set()
    for f in os.listdir(OUT):
        if f.startswith("result."):
            done |= {json.loads(l)["id"] for l in open(f"{OUT}/{f}")}
    only = os.environ.get("ONLY")
    for i, x in enumerate(ms):
        if i % n != w or x["id"] in done: continue
        if only and not re.search(only, x["file"]): continue
        p = f"{R}/{x['file']}"
        t = open(OUT+"/pristine/"+x["file"]).read()
        open(p, "w").write(t[:x["a"]] + x["new"] + t[x["b"]:])
        rc, o = sh(f"bash {V}/run.sh build", 600)
        r = dict(x)
        if rc != 0:
            r["res"] = "nobuild"
        else:
            r["res"] = "SURVIVED"
            pr = PRIO[x["file"]]
            # MUT_ALL: a mutant that survives the properties of its file meets all the others too
            for pid in pr + [q for q in ALL if q not in pr and os.environ.get("MUT_ALL")]:
                rc, o = sh(f"{V}/target/release/sdsv run {pid} quick", 300, VERIF_SEED="1", VERIF_TIER="quick")
                if rc != 0:
                    r["res"] = f"{pid} rc={rc}"
                    m = re.search(r"VIOLATION[^\n]*", o)
                    r["by"] = pid
                    r["out"] = o[-300:] if rc != 1 else ""
                    break
        open(p, "w").write(t)
        with open(res, "a") as g: g.write(json.dumps(r)+"\n")

if sys.argv[1] == "gen": gen()
else: run(int(sys.argv[2]), int(sys.argv[3]))
