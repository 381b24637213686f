"""reg.py ID title statement quantifier why 'file,file' 'mech|where' technique note : (re)writes a property in gen_properties.py and levels.json"""
import json, re, sys
def reg(id, title, st, over, q, why, files, mech, t, n):
    p = '/verif/tools/gen_properties.py'; s = open(p).read()
    ent = 'p(%s, %s,\n  %s,\n  %s, %s,\n  %s,\n  [%s], [%s])\n' % (json.dumps(id), json.dumps(title), json.dumps(st), json.dumps(over), json.dumps(q), json.dumps(why),
        ', '.join(json.dumps(f) for f in files), ', '.join('(%s, %s)' % (json.dumps(a), json.dumps(b)) for a, b in mech))
    m = re.search(r'^p\("%s".*?\]\)\n(?=p\(|\n|\Z|[a-z#])' % id, s, re.S | re.M)
    if m: s = s[:m.start()] + ent + s[m.end():]
    else:
        i = [x.end() for x in re.finditer(r'^p\("C\d+".*?\]\)\n', s, re.S | re.M)][-1]
        s = s[:i] + ent + s[i:]
    open(p, 'w').write(s)
    l = json.load(open('/verif/tools/levels.json')); l[id] = {"t": t, "n": n}
    json.dump(l, open('/verif/tools/levels.json', 'w'), indent=1, ensure_ascii=False)
