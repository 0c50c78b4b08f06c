#!/usr/bin/env python3
"""mutate.py NAME WHAT PROP...: runs checks against a scratch copy of /repo with a change.
WHAT: a patch file, or revert:<commit>. With --tests also builds and runs the repository's own tests on the copy.
Prints one line per property: caught / MISSED / ERROR. Nothing in /repo or /verif is touched."""
import os, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def copy(name, what, base="HEAD"):
    d = "/tmp/mut/" + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/repo")
    subprocess.run("git -C /repo archive %s | tar -x -C %s/repo" % (base, d), shell=True, check=True)
    if what == "none":
        return d
    if what.startswith("revert:"):
        diff = subprocess.run(["git", "-C", "/repo", "show", "--format=", what[7:]], capture_output=True).stdout
        r = subprocess.run(["patch", "-R", "-p1", "-s", "--no-backup-if-mismatch"], cwd=d + "/repo", input=diff, capture_output=True)
    else:
        r = subprocess.run(["patch", "-p1", "-s", "--no-backup-if-mismatch"], cwd=d + "/repo", input=open(what, "rb").read(), capture_output=True)
    if r.returncode:
        print(name, "PATCH FAILED", r.stdout.decode()[-500:], r.stderr.decode()[-500:])
        return None
    return d


def check(d, prop, tier="quick"):
    t = time.time()
    env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_OUT=d, VERIF_SEED="1", VERIF_TIER=tier)
    r = subprocess.run([sys.executable, VERIF + "/check.py", prop], env=env, capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr, time.time() - t


def main():
    name, what, props = sys.argv[1], sys.argv[2], sys.argv[3:]
    d = copy(name, what)
    if not d:
        return 1
    for p in props:
        rc, o, w = check(d, p)
        last = [x for x in o.split("\n") if x.startswith(("VIOLATION", "CHECK-ERROR"))]
        print("%-28s %s %-7s %4.0fs %s" % (name, p, {0: "MISSED", 1: "caught"}.get(rc, "ERROR"), w, "" if rc == 0 else [x for x in o.split("\n") if ":" in x and not x.startswith(("[", "VIOL"))][0][:140] if rc == 1 else o[-700:]), flush=True)
    shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
