#!/usr/bin/env python3
"""Working with planted bugs (never read by a check).
  seed.py check <id> [-n]      patch builds, passes the stable tests, demo tells (-n: skip build/tests)
  seed.py catch <id> [PROP..]  which checks report it (default: its own property)
  seed.py full <id|all|a,b,c>  check and catch in one go
  seed.py new <json-file>      make /verif/seeded/<id>/ from {id,property,needs,what_it_breaks,edits:[[file,old,new]],demo,files}
Applies the patch to /repo and undoes it afterwards."""
import json, os, subprocess, sys
S = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def git(*a): return subprocess.run(["git", "-C", "/repo", *a], text=True, capture_output=True)
def clean():
    git("checkout", "--", ".")
def dirty(): return git("status", "--porcelain").stdout.strip()
def apply(i):
    r = git("apply", f"{S}/{i}/patch.diff")
    if r.returncode: print(i, "DOES NOT APPLY", r.stderr); return False
    return True
def build():
    r = sh("bash /opt/vp/build.sh")
    if r.returncode: print(r.stdout[-3000:]); return False
    return True
def tests():
    sh("bash /opt/vp/test.sh /tmp/seed-out.json")
    b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/seed-out.json"))
    want = b["stable"]; got = set(o["passed"])
    miss = [x for x in want if x not in got]
    if miss: print("TESTS FAIL", miss[:10])
    return not miss
def demo(i):
    d = f"/tmp/seed-demo-{i}"
    sh(f"rm -rf {d}; mkdir {d}; cp -r {S}/{i}/. {d}/; rm -f {d}/patch.diff {d}/meta.json")
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    sh(f"rm -rf {d}")
    return r.returncode, r.stdout
def main():
    assert not dirty(), "repo is dirty"
    cmd, arg = sys.argv[1], sys.argv[2]
    if cmd == "new":
        for j in json.load(open(arg)):
            i = j["id"]; os.makedirs(f"{S}/{i}", exist_ok=True)
            try:
                for f, old, new in j["edits"]:
                    p = "/repo/" + f; t = open(p, newline="").read()
                    if "\r\n" in t: old, new = old.replace("\r\n", "\n").replace("\n", "\r\n"), new.replace("\r\n", "\n").replace("\n", "\r\n")
                    assert t.count(old) == 1, (i, f, t.count(old), old)
                    open(p, "w", newline="").write(t.replace(old, new))
                open(f"{S}/{i}/patch.diff", "wb").write(subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True).stdout)
            finally: clean()
            open(f"{S}/{i}/demo.sh", "w").write(j["demo"])
            for n, t in j.get("files", {}).items(): open(f"{S}/{i}/{n}", "w").write(t)
            json.dump({k: j[k] for k in ("property", "needs", "what_it_breaks")}, open(f"{S}/{i}/meta.json", "w"), indent=1)
            # lines the fixes added must stay
            base = sh("git -C /repo log --format=%h | tail -1").stdout.strip()
            for l in open(f"{S}/{i}/patch.diff", newline="\n"):
                if l.startswith("-") and not l.startswith("---") and l[1:].strip():
                    fs = j["edits"][0][0]
                    orig = git("show", f"{base}:{fs}").stdout + "".join(git("show", f"{base}:{e[0]}").stdout for e in j["edits"])
                    if l[1:].rstrip("\r\n") not in orig: print(i, "NOT AN ORIGINAL LINE:", l.rstrip())
            print("made", i)
        return
    ids = sorted(os.listdir(S)) if arg == "all" else arg.split(",")
    for i in ids:
        try:
            if cmd == "check":
                if not apply(i): continue
                ok = build() and ("-n" in sys.argv or tests())
                rc, out = demo(i)
                clean()
                build()
                rc0, out0 = demo(i)
                print(i, "OK" if ok and rc != 0 and rc0 == 0 else "BAD", f"tests={ok} patched={rc} unchanged={rc0}", flush=True)
                if rc0 != 0: print(out0[-800:])
                if rc == 0: print(out[-800:])
            elif cmd == "full":
                if not apply(i): continue
                ok = build() and tests()
                rc, out = demo(i)
                if ok and rc == 0: print(i, "DEMO DOES NOT TELL", out[-800:], flush=True)
                p = json.load(open(f"{S}/{i}/meta.json"))["property"]
                if ok:
                    r = sh(f"/verif/run.sh {p}")
                    line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                    print(i, p, "CAUGHT" if r.returncode == 1 and line else f"MISSED rc={r.returncode}", flush=True)
                clean(); build()
                rc0, out0 = demo(i)
                print(i, "OK" if ok and rc != 0 and rc0 == 0 else "BAD", f"tests={ok} patched={rc} unchanged={rc0}", flush=True)
                if rc0 != 0: print(out0[-800:])
            elif cmd == "catch":
                props = [a for a in sys.argv[3:]] or [json.load(open(f"{S}/{i}/meta.json"))["property"]]
                if not apply(i): continue
                for p in props:
                    r = sh(f"/verif/run.sh {p}")
                    line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                    print(i, p, "CAUGHT" if r.returncode == 1 and line else f"missed rc={r.returncode}", flush=True)
                    if r.returncode not in (0, 1) or "-v" in sys.argv: print(r.stdout[-1500:])
        finally: clean()
main()
