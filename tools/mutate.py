#!/usr/bin/env python3
"""mutate.py OUT SEED N [PATTERN]: runs the quick checks against N random one-line mutants of the library (each in a private overlay of /repo).

A mutant that no mapped check reports is then run through the stable tests; if these pass as well, it is printed as MISSED
and has to be looked at: an equivalent mutant, or a gap."""
import json, os, random, re, subprocess, sys
MAP = [
    (r"^src/binary/select", ["B04"]),
    (r"^src/binary/cancel|src/binary/struct_trait/session|src/binary/struct_trait/end|src/binary/struct_trait/recv|src/binary/struct_trait/send", ["B01", "B02", "M04"]),
    (r"^src/binary/(choose|offer)", ["B03", "B02"]),
    (r"^src/binary/", ["B02", "B01", "M01"]),
    (r"^src/binary_atmp/(struct_trait)", ["D01", "T03", "T04"]),
    (r"^src/binary_atmp/", ["T01", "T02", "T03", "T04"]),
    (r"^src/checking|seq_proc/src/checking", ["C01"]),
    (r"^src/top_down", ["N02", "N01"]),
    (r"^src/transport", ["X01"]),
    (r"^src/(role|name|meshedchannels)", ["D01", "M07"]),
    (r"^src/functionmpst|seq_proc/src/functionmpst|macros_simple", ["M07"]),
    (r"macros_multiple|choose_mpst_multi", ["M07", "M08"]),
    (r"interleaved", ["I01"]),
    (r"atmp|session_timed", ["T04", "I01"]),
    (r"expand/(name|role|meshed)", ["D01", "M02"]),
    (r"^src/baking|expand/|seq_proc/src/baking|aux_", ["M02", "M05", "M04", "T04", "I01"]),
]
VC = os.environ.get("VCOPY", "/verif")  # a copy of /verif to run from, so that /verif can be edited meanwhile
SKIP = re.compile(r"http|protobuf|src/lib\.rs$")


def files():
    o = subprocess.run("git -C /repo ls-files src mpst_seq_proc/src", shell=True, capture_output=True, text=True).stdout.split()
    return [f for f in o if f.endswith(".rs") and not SKIP.search(f)]


def rules(line):
    s = line.strip()
    if not s or s.startswith(("//", "#[", "use ", "pub use", "mod ", "pub mod", "*", "macro_rules", "fn ", "pub fn", "impl", "where", "quote!", "}", "r#", "panic!", "#!")):
        return []
    out = []
    def sub(a, b, flags=0):
        for m in re.finditer(a, line):
            out.append(line[:m.start()] + m.expand(b) + line[m.end():])
    sub(r" < ", " <= "); sub(r" <= ", " < "); sub(r" > ", " >= "); sub(r" >= ", " > ")
    sub(r" == ", " != "); sub(r" != ", " == "); sub(r" && ", " || "); sub(r" \|\| ", " && ")
    sub(r"\btrue\b", "false"); sub(r"\bfalse\b", "true")
    sub(r"\.\.=", ".."); sub(r"(?<=[0-9a-z)])\.\.(?=[0-9a-z(#])", "..=")
    sub(r" \+ 1\b", ""); sub(r" - 1\b", "")
    if "'static" not in line and "marker" not in line and "Send" not in line:
        sub(r" \+ ", " - "); sub(r" - (?!>)", " + ")
    sub(r"\b0(?=[);,. ]|$)", "1"); sub(r"\b1(?=[);,. ]|$)", "2")
    sub(r"\bleft\b", "right"); sub(r"\bright\b", "left"); sub(r"\bLeft\b", "Right"); sub(r"\bRight\b", "Left")
    sub(r"if !", "if "); sub(r"\bif (?!let|!)", "if !")
    sub(r"\?;", ".ok();"); sub(r"\bOk\(\(\)\)", "Err(\"mutant\".into())"); sub(r"=> Err\([^()]*\),", "=> Ok(()),")
    sub(r"\bis_some\(\)", "is_none()"); sub(r"\bis_none\(\)", "is_some()"); sub(r"\bis_empty\(\)", "len() != 0")
    sub(r"\.rev\(\)", ""); sub(r"\bupper\b", "lower"); sub(r"\.clone\(\)", "")
    sub(r"\bstart\b", "end"); sub(r"\bsender\b", "receiver"); sub(r"\bsession1\b", "session2"); sub(r"\bsession2\b", "session1")
    if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "type ", "struct ", "static ", "const ", "extern ")):
        out.append("")
    return [o for o in out if o != line]


def main():
    out, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    pat = re.compile(sys.argv[4] if len(sys.argv) > 4 else "")
    rnd = random.Random(seed)
    cand = {}
    for f in files():
        if pat.search(f):
            src = open("/repo/" + f).read().split("\n")
            for i, l in enumerate(src):
                for r in rules(l):
                    cand.setdefault(f, []).append((i, l, r))
    os.makedirs(out, exist_ok=True)
    fs = sorted(cand)
    done = 0
    while done < n and fs:
        f = rnd.choice(fs)  # uniform over the files, so that small files get their share
        if not cand[f]:
            fs.remove(f)
            continue
        i, l, r = cand[f].pop(rnd.randrange(len(cand[f])))
        done += 1
        checks = next(c for p, c in MAP + [("", ["M01", "M07"])] if re.search(p, f))
        o = f"{out}/w"
        subprocess.run(["rm", "-rf", o])
        for d in ("ru", "rw", "bu", "bw"):
            os.makedirs(f"{o}/{d}")
        src = open("/repo/" + f).read().split("\n")
        src[i] = r
        open(f"{o}/new", "w").write("\n".join(src))
        runs = " ".join(checks)
        sh = f"""
mount --bind {VC} /verif &&
mount -t overlay overlay -o lowerdir=/repo,upperdir={o}/ru,workdir={o}/rw /repo &&
mount -t overlay overlay -o lowerdir={VC}/build,upperdir={o}/bu,workdir={o}/bw /verif/build || exit 9
cp {o}/new /repo/{f}; cd /verif
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
(cd /repo && CARGO_TARGET_DIR={o}/t cargo check --offline --all-features) >{o}/chk 2>&1 || {{ echo NOBUILD; exit; }}
for c in {runs}; do timeout 900 python3 check.py $c --tier quick --seed 1 >{o}/log.$c 2>&1; e=$?; echo RC $c $e; [ $e = 1 ] && {{ grep -a VIOLATION {o}/log.$c | head -1; exit; }}; done
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG RUSTUP_TOOLCHAIN CARGO_NET_OFFLINE
cd /repo; bash /opt/vp/build.sh >{o}/b1 2>&1 || {{ echo NOBUILD2; exit; }}
timeout -k 5 400 bash /opt/vp/test.sh {o}/t.json >/dev/null 2>&1
python3 -c "
import json;t=json.load(open('{o}/t.json'));b=json.load(open('/opt/vp/BASELINE.json'));m=set(b['stable'])-set(t['passed']);print('TESTSFAIL' if m else 'MISSED',len(m))"
"""
        p = subprocess.run(["unshare", "-m", "bash", "-c", sh], capture_output=True, text=True)
        res = p.stdout.strip().replace("\n", " ; ")
        with open(out + "/results", "a") as g:
            g.write(json.dumps(dict(f=f, line=i + 1, old=l.strip(), new=r.strip(), res=res, err=p.stderr[-200:])) + "\n")
        subprocess.run(["rm", "-rf", o])


main()
