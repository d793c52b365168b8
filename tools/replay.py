import json, os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
r = json.load(open(sys.argv[1]))
with tempfile.TemporaryDirectory() as d:
    u = check.Unit(None, dict(name=r['unit'], src=r['src'], defs=[x for x in r['defs'] if 'VP_THOROUGH' not in x]), 'thorough' if '-DVP_THOROUGH=1' in r['defs'] else 'quick', d, 1, [], 1, 60)
    print('inputs (solver model):', [v for _, _, v in r['inputs']])
    for k in ('plain', 'asan', 'pat', 'msan', 'o2'):
        rc, out, _ = u.run_native(u.build_native(k), r['entry'], r['inputs'])
        print('== %s build: exit %d' % (k, rc)); print(out[-1500:])
