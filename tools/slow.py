import json, sys
for c in sys.argv[1:]:
    e = json.load(open(f'/verif/evidence/{c}.json'))
    l = e['coverage']['instances']
    r = sorted(((round(v['wall_s'], 1), round((v['stats'] or {}).get('solve_time', 0), 1), round((v['stats'] or {}).get('sat_time', 0), 1), k, v['status']) for k, v in l.items()), reverse=True)
    print(c, e['tier'], e['wall_s'], len(r)); [print('  ', *x) for x in r[:6]]
