"""Regenerates the tables of planted bugs at the end of DESIGN.md (development only)."""
import re,json,os,glob
p='/verif/DESIGN.md'
s=open(p).read()
k=open('/verif/KNOWN_FINDINGS.txt').read().count("\nfixed:")+open('/verif/KNOWN_FINDINGS.txt').read().startswith("fixed:")
s=re.sub(r"\d+ `fix:` commits \(\d+ listed in KNOWN_FINDINGS.txt; the other only restores the line endings of a file\)\.","%d `fix:` commits (%d listed in KNOWN_FINDINGS.txt; the other only restores the line endings of a file)."%(k+1,k),s)
s=re.sub(r"all \d+ detected\)","all detected)",s)
# seeded table
a=s.find("\n## Planted bugs")
if a>=0: s=s[:a]+"\n"
strength={"eventlog-flag-one":"restored flags of any non-zero value","timer-autoreload-one":"auto-reload values other than 1","sched-second-cache":"the same windows on changing days","sm-current-machine":"two users of one library","eventlog-static-part":"two users of one library","pid-shared-sum":"two users of one library","wear-kept-buffer":"two users of one library","watcher-static-index":"two users of one library","timer-static-state":"two users of one library","debounce-long-count":"counts over 127","pulse-change-return":"256 pulses","eventlog-large-start":"numbered events","wear-short-compare":"blocks over 64 bytes","wear-string-compare":"values behind zeros","sm-self-transition":"state numbers at width boundaries","watcher-index-byte":"300 watchers","wear-compare-window":"6000 and 70000 byte blocks","param-table-byte":"300 entry tables","ser-unpack-wide":"unpacking into wider variables","list-far-link":"links deep inside large structures","wear-sum-compare":"data whose bytes or words sum to the same","maybe-map-static":"functions that use optional values themselves","ser-pack-twice":"macro arguments with side effects","param-lowest-multiplier":"multipliers up to the ends of int","ring-reinit-keep":"initialising a used ring with the same memory","wear-init-touch":"re-initialisation without power loss","param-null-arg":"callbacks without argument","param-copy-eight":"different guards around the storages"}
t=["\n## Planted bugs and what catches them\n","Every directory of `seeded/` (demo and the 53 tests confirmed); each is caught by the quick check of its property. The last column names what",
"had to be added to the check because it missed the change at first (nothing: caught as it was). Mechanical mutants (`tools/mutants.py`) led to further",
"additions: rings over 65535 cells, rings without memory, narrow index steps under concurrency (C01/C02), error codes -1/256 from storage (C06/C07), statically",
"initialised lists (C05), more than 127 keys (C11), narrow timestamps (C12), freed memory and converted types (C26), rendered texts (C18).\n",
"| property | change | breaks | added for it |","| --- | --- | --- | --- |"]
for d in sorted(glob.glob('/verif/seeded/*/meta.json'),key=lambda d:(json.load(open(d))["property"],d)):
    m=json.load(open(d)); n=d.split('/')[-2]
    t.append("| %s | %s | %s (needs: %s) | %s |"%(m["property"],n,m["what_it_breaks"],m["needs"],strength.get(n,"")))
ben=len(glob.glob('/verif/benign/*.patch'))
t.append("\nBehaviour-preserving refactorings (`benign/`, %d of them: helpers extracted, loops rewritten, statements reordered, locals renamed, tables computed, ...) all leave the checks quiet."%ben)
s=s.rstrip("\n")+"\n"+"\n".join(t)+"\n"
open(p,'w').write(s)
