#!/usr/bin/env python3
"""mutants.py [-j N] [--seed S] [--max K] FILE...: mechanical changes to the sources under /repo/gel, one at a time in
scratch copies: those that compile, change the object code and pass the repository's tests are given to the checks of
the file's properties. Survivors are listed for inspection (development only)."""
import concurrent.futures as cf, argparse, hashlib, os, random, re, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
    "collections/circular_buffer.c": "C01 C02", "collections/circular_buffer.h": "C01 C02", "collections/queue.h": "C03",
    "collections/stack.h": "C04", "collections/listx.h": "C05", "circular_event_log/circular_event_log.c": "C06",
    "wearleveling/wearleveling.c": "C07 C08", "debounce/debounce.c": "C09", "debounce/debounce.h": "C09",
    "debounce/pulsecounter.c": "C10", "debounce/pulsecounter.h": "C10", "keypad/keypad.c": "C11", "keypad/keypad.h": "C11",
    "timer/timecheck.h": "C12 C13 C14", "timer/stopwatch.c": "C13", "timer/stopwatch.h": "C13", "timer/timer.c": "C14",
    "timer/timer.h": "C14", "data_structures/watcher.c": "C15", "data_structures/watcher.h": "C15",
    "parameter/parameter.c": "C16 C17 C18", "parameter/parameter.h": "C16 C17 C18", "pid/pid.c": "C19", "pid/pid.h": "C19",
    "scheduler/scheduler.c": "C20 C21", "scheduler/scheduler.h": "C20 C21", "pagemanager/page_manager.c": "C22",
    "pagemanager/page_manager.h": "C22", "serializer/serializer.h": "C23", "crc/crc32.c": "C24", "crc/crc16-ccitt.c": "C24",
    "crc/crc16-ccitt.h": "C24", "state_machine/state_machine.h": "C25", "data_structures/struct_update.h": "C26",
    "data_structures/struct_update.c": "C26", "data_structures/maybe.h": "C27"}
ROOT = os.environ.get("MUTROOT", "/tmp/mutants")


def code_mask(s):
    """True where the text is code (not comment, string, include/conditional directive)."""
    m = [True] * len(s)
    for r in re.finditer(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\])\'|^[ \t]*#[ \t]*(?:include|if|ifdef|ifndef|endif|else|elif|undef|error|pragma|define\s+\w+\s*$)[^\n]*', s, re.S | re.M):
        for i in range(r.start(), r.end()):
            m[i] = False
    return m


SUBS = [(r"<=", ["<", "=="]), (r">=", [">", "=="]), (r"==", ["!=", ">=", "<="]), (r"!=", ["=="]), (r"(?<![<\-=>])<(?![<=])", ["<="]),
        (r"(?<![>\-=])>(?![>=])", [">="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\+\+", ["--"]), (r"--", ["++"]),
        (r"(?<![+])\+(?![+=])", ["-"]), (r"(?<![-])-(?![-=>\d])", ["+"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]),
        (r"(?<=[\w)\]]) ?\* ?(?=[\w(])", [" / "]), (r"(?<![/*]) / (?![/*])", [" * "]), (r" % ", [" / "]), (r"(?<!&)&(?![&=])(?= )", ["|"]),
        (r"(?<!\|)\|(?![|=])", ["&"]), (r"<<", [">>"]), (r">>", ["<<"]), (r"\^", ["|"]), (r"~", [""]), (r"!(?!=)", [""]),
        (r"\b\d+(?=[uUlL]*\b)(?!\.)", ["+1", "-1"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
        (r"\bint64_t\b", ["int32_t"]), (r"\buint64_t\b", ["uint32_t"]), (r"\buint32_t\b", ["uint16_t", "int32_t"]), (r"\bint32_t\b", ["int16_t", "uint32_t"]),
        (r"\bsize_t\b", ["uint16_t", "uint8_t", "int"]), (r"\bunsigned long\b", ["uint16_t", "uint32_t"]), (r"\buint16_t\b", ["uint8_t", "int16_t"]),
        (r"\bint16_t\b", ["int8_t", "uint16_t"]), (r"\bdouble\b", ["float"]), (r"\bint\b", ["int8_t"]), (r"\bint8_t\b", ["uint8_t"]), (r"\buint8_t\b", ["int8_t"]),
        (r"\btimestamp_t\b", ["uint16_t"]), (r"\bbreak;", [";", "return;"]), (r"\bcontinue;", [";", "break;"]), (r"\bgel_timestamp_t\b", ["uint16_t"])]


def mutants(rel, s):
    m = code_mask(s)
    out = []
    line = lambda i: s.count("\n", 0, i) + 1
    for pat, reps in SUBS:
        for r in re.finditer(pat, s):
            if not all(m[r.start():r.end()]):
                continue
            for rep in reps:
                t = r.group(0)
                if rep in ("+1", "-1"):
                    v = int(t) + int(rep)
                    rep2 = str(v) if v >= 0 else "(-1)"
                else:
                    rep2 = rep
                out.append((line(r.start()), "%s -> %s" % (t.strip(), rep2.strip()), s[:r.start()] + rep2 + s[r.end():]))
    # statements: deletion of simple ones, conditions forced
    for r in re.finditer(r"^([ \t]*)([\w*>.\[\]()&\-]+(?:[^;{}\n]|\\\n)*;)", s, re.M):
        t = r.group(2)
        if not m[r.start(2)] or re.match(r"(return|break|continue|typedef|goto|case|default|else|for|extern|struct|union|enum|static|const|unsigned|size_t|u?int\d*(_t)? |bool |char |void |\w+_t [\w*]+( =|;))", t) or "(" not in t and "=" not in t and "++" not in t and "--" not in t:
            continue
        out.append((line(r.start(2)), "delete: " + t[:50], s[:r.start(2)] + ";" + s[r.end(2):]))
    for r in re.finditer(r"\b(if|while) \(", s):
        if not m[r.start()]:
            continue
        d, i = 0, r.end() - 1
        while i < len(s):
            d += s[i] == "("
            d -= s[i] == ")"
            if d == 0:
                break
            i += 1
        for v in ("0", "1") if r.group(1) == "if" else ("0",):
            out.append((line(r.start()), "%s (%s)" % (r.group(1), v), s[:r.end()] + v + s[i:]))
    return out


DECL = re.compile(r"^(?P<in>[ \t]*)(?P<type>(?:unsigned |struct )?[A-Za-z_]\w*(?:##\w+)?)(?P<star>[ \t]+\**[ \t]*|[ \t]*\*+[ \t]*)(?P<name>\w+)[ \t]*(?P<eq>=[^;{}]*)?;", re.M)


def statics(rel, s):
    """Local variables (and parameters) that live in static memory."""
    m = code_mask(s)
    out = []
    line = lambda i: s.count("\n", 0, i) + 1
    for r in DECL.finditer(s):
        if not m[r.start("name")] or r.group("type") in ("return", "else", "goto", "typedef", "extern", "static", "const", "case", "struct", "union", "enum") or not r.group("in"):
            continue
        if not r.group("star").strip("* \t") == "" or r.group("name") in ("NULL",):
            continue
        new = "%sstatic %s%s%s;" % (r.group("in"), r.group("type"), r.group("star"), r.group("name"))
        if r.group("eq"):
            new += " %s %s;" % (r.group("name"), r.group("eq"))
        out.append((line(r.start("name")), "static " + r.group("name"), s[:r.start()] + new + s[r.end():]))
    for r in re.finditer(r"for \((size_t|int|unsigned int) (\w+) = ", s):
        if m[r.start()]:
            out.append((line(r.start()), "static " + r.group(2), s[:r.start()] + "static %s %s; for (%s = " % (r.group(1), r.group(2), r.group(2)) + s[r.end():]))
    # parameters: copied to a static variable on entry
    for r in re.finditer(r"^[A-Za-z_][^;{}()=\n]*\(([^;{}()]*)\) *(?:\\\n|\s)*\{", s, re.M):
        if not m[r.start()]:
            continue
        for p in r.group(1).replace("\\\n", " ").split(","):
            q = re.match(r"\s*(.*?[\s*])(\w+)\s*$", p)
            if q and q.group(1).strip() and "#" not in p and "..." not in p:
                # every later use of the name in the body reads the static copy
                d, i = 0, r.end() - 1
                while i < len(s):
                    d += s[i] == "{"
                    d -= s[i] == "}"
                    if d == 0:
                        break
                    i += 1
                body = re.sub(r"(?<![.\w>])%s\b" % q.group(2), "kept_" + q.group(2), s[r.end():i])
                t = re.sub(r"\bconst\b", "", q.group(1))
                out.append((line(r.start()), "static parameter " + q.group(2), s[:r.end()] + " static %skept_%s; kept_%s = %s; " % (t, q.group(2), q.group(2), q.group(2)) + body + s[i:]))
    return out


VALUES = ["0", "1", "-1", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "-2147483647-1"]


def specials(rel, s):
    """A function that treats one value of a parameter, of a field or of a local variable differently."""
    m = code_mask(s)
    out = []
    line = lambda i: s.count("\n", 0, i) + 1
    for r in re.finditer(r"^[ \t]*(?:[A-Za-z_]\w*(?:\([^()\n]*\))*[ \t*]+)+[\w#]+\(([^;{}]*)\) *\{", s, re.M):
        if not m[r.start()] or re.match(r"\s*(?:else|return|while|for|switch|if|do)\b", r.group(0)):
            continue
        d, i = 0, r.end() - 1
        while i < len(s):
            d += s[i] == "{"
            d -= s[i] == "}"
            if d == 0:
                break
            i += 1
        body = s[r.end():i]
        what = []
        ptrs = []
        for p in re.sub(r"\\\s*\n", " ", r.group(1)).split(","):
            q = re.match(r"\s*(.*?[\s*])(\w+)\s*$", p)
            if q and "*" in q.group(1) or q and "MAYBE" in p or q and q.group(1).strip().endswith("_t") and "->" in body:
                ptrs.append(q.group(2))
            if q and "*" not in p and q.group(1).strip() and "(" not in p:
                what.append((r.end(), q.group(2), "1"))
        for a, f in sorted(set(re.findall(r"\b(\w+)->([\w.]+)(?!\w*\()", body))):
            if a in ptrs:
                what.append((r.end(), "%s->%s" % (a, f), a))
        for q in re.finditer(r"^[ \t]*(?:unsigned |struct )?[A-Za-z_]\w*(?:##\w+)?[ \t]+(\w+)[ \t]*=[^;{}]*;", body, re.M):
            if not q.group(0).strip().startswith("return"):
                what.append((r.end() + q.end(), q.group(1), "1"))
        for at, v, guard in what:
            for c in VALUES:
                t = " _Static_assert(__builtin_classify_type(%s) == 1 && (__typeof__(%s))(%s) == (%s), \"\"); if ((%s) && %s == (__typeof__(%s))(%s)) *(__typeof__(%s) *)&%s ^= 1; " % (v, v, c, c, guard, v, v, c, v, v)
                out.append((line(at), "%s == %s" % (v, c), s[:at] + t + s[at:]))
    return out


def setup(w):
    d = "%s/w%d" % (ROOT, w)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/repo")
    subprocess.run("git -C /repo archive HEAD | tar -x -C %s/repo" % d, shell=True, check=True)
    os.makedirs(d + "/vp")
    for f in os.listdir("/opt/vp"):
        p = "/opt/vp/" + f
        if os.path.isfile(p):
            x = open(p, "rb").read().replace(b"/repo", (d + "/repo").encode()).replace(b"/opt/vp/", (d + "/vp/").encode())
            open(d + "/vp/" + f, "wb").write(x)
    return d


def tests(d):
    try:
        r = subprocess.run(["bash", d + "/vp/test.sh", d + "/t.json"], capture_output=True, text=True, timeout=150)
    except subprocess.TimeoutExpired:
        return False
    import json
    try:
        j = json.load(open(d + "/t.json"))
    except Exception:
        return False
    base = set(BASE)
    return base <= set(j["passed"])


def one(d, rel, txt, props):
    p = d + "/repo/gel/" + rel
    orig = open(p, "rb").read()
    try:
        open(p, "wb").write(txt)
        if rel.endswith(".c"):
            objs = []
            for src in (orig, txt):
                open(p, "wb").write(src)
                o = d + "/o.o"
                if os.path.exists(o):
                    os.unlink(o)
                subprocess.run(["gcc", "-O2", "-w", "-c", "-I" + VERIF + "/harness/conf", "-I" + VERIF + "/harness", "-I" + d + "/repo", "-I" + d + "/repo/gel", '-DGEL_PAGEMANAGER_CONFIGURATION_HEADER="pman_types.h"',
                                p, "-o", o], capture_output=True, cwd=d)
                objs.append(open(o, "rb").read() if os.path.exists(o) else None)
            if objs[0] is not None and objs[1] is None:
                return "nocompile", ""
            if objs[0] is not None and objs[0] == objs[1]:
                return "equal", ""
        if not tests(d):
            return "tests", ""
        env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_OUT=d, VERIF_SEED="1", VERIF_TIER="quick", VERIF_DEVCACHE="/tmp/devcache", VERIF_C28_ONLY=PROPS[rel])
        notes = []
        for q in props.split():
            try:
                r = subprocess.run([sys.executable, VERIF + "/tools/devrun.py", q], env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                notes.append(q + ":TIMEOUT")
                continue
            if r.returncode == 1:
                return "caught", q
            if r.returncode != 0:
                notes.append("%s:ERROR %s" % (q, [x for x in r.stdout.split("\n") if "CHECK-ERROR" in x][:1]))
                if "build of" in r.stdout:
                    return "nocompile", ""
        return ("ERROR" if notes else "SURVIVED"), "; ".join(notes)[:300]
    finally:
        open(p, "wb").write(orig)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("-j", type=int, default=4)
    a.add_argument("--seed", default="1")
    a.add_argument("--max", type=int, default=10 ** 9)
    a.add_argument("--static", action="store_true", help="locals and parameters in static memory (C28)")
    a.add_argument("--special", action="store_true", help="single values treated differently")
    a.add_argument("--list", action="store_true")
    a.add_argument("--caught", action="store_true", help="also list what is caught")
    a.add_argument("files", nargs="*")
    a = a.parse_args()
    global BASE
    import json
    b = json.load(open("/opt/vp/BASELINE.json"))
    BASE = b if isinstance(b, list) else b["stable"]
    jobs = []
    for f in a.files or sorted(PROPS):
        s = open("/repo/gel/" + f, newline="").read()
        ms = statics(f, s) if a.static else specials(f, s) if a.special else mutants(f, s)
        seen, u = set(), []
        for m in ms:
            if m[2] not in seen and m[2] != s:
                seen.add(m[2])
                u.append(m)
        random.Random(a.seed + f).shuffle(u)
        u = u[:a.max]
        print("%s: %d of %d mutants" % (f, len(u), len(seen)), flush=True)
        jobs += [(f, l, w, t.encode()) for l, w, t in u]
    if a.list:
        return
    import queue as qq
    pool = qq.Queue()
    for w in range(a.j):
        pool.put(setup(w))

    def go(j):
        d = pool.get()
        try:
            return j, one(d, j[0], j[3], "C28" if a.static else PROPS[j[0]])
        finally:
            pool.put(d)
    cnt = {}
    with cf.ThreadPoolExecutor(a.j) as ex:
        for j, (res, note) in ex.map(go, jobs):
            cnt[res] = cnt.get(res, 0) + 1
            if res in ("SURVIVED", "ERROR") or a.caught and res == "caught":
                print("%-8s %s:%d  %s  %s" % (res, j[0], j[1], j[2].replace("\n", "\\n"), note), flush=True)
    print(cnt, flush=True)
    shutil.rmtree(ROOT, ignore_errors=True)


if __name__ == "__main__":
    main()
