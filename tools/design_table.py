"""Rewrites the table of planted bugs at the end of DESIGN.md (section 6)."""
import json, os
p = 'DESIGN.md'
s = open(p).read()
mark = '## 6. Planted bugs\n'
head = s.split(mark)[0]
out = [mark, '''
Each was written from a property's text and the code alone, breaks it while the existing tests pass, and
comes with a demonstration (`seeded/<id>/`). `tools/bugs.sh [id…]` applies each to /repo, runs the quick
check of its property and undoes it. All are caught (exit 1 with that property's VIOLATION line and a
replayable, minimised history) within the quick budget. Two were missed at first: `cardinality-snapshot`
(then `bulk` learned to empty families again) and `init-all-capped` (then phases that initialise large
dense sets); the mutation survivors mentioned in section 5 led to the shapes `SCases` and `SBig`, to
overflow checks in the crates under test, and to failing writers in `simproc` and `simtokio`.

| id | property | what it breaks | what it needs |
|---|---|---|---|
''']
for d in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{d}/meta.json'))
    e = lambda x: x.replace('|', '\\|').replace('\n', ' ')
    out.append(f"| {d} | {m['property']} | {e(m['what_it_breaks'])} | {e(m['needs'])} |\n")
open(p, 'w').write(head.rstrip() + '\n\n' + ''.join(out))
