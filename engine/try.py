import sys, time
sys.path.insert(0, '/verif/engine')
import check, props
from mir import Program
def run(entry, cls, kw, dump='/tmp/d/dump.json', rules=None):
    r = check.analyse(("debug", entry, cls, kw, rules, dump, time.time() + 600))
    print(entry, kw, r["wall_s"], r["stats"], r["obligations"])
    for u in r["unsupported"][:5]: print("   UNSUP", u)
    for v in r["violations"][:4]: print(check.render(v))
want = sys.argv[1:]
seen = set()
for p in props.PROPS.values():
    for e, c, kw in p.jobs:
        k = (e, c.__name__, str(kw))
        if k in seen: continue
        seen.add(k)
        if not want or any(w in e for w in want): run(e, c, kw)
