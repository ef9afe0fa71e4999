import json, sys
for f in sys.argv[1:]:
    d = json.load(open(f))
    print(f, d['run'], d['kind'], d['violation'][:600])
    for k, v in d['readable'].items():
        print('  ', k, ':')
        for x in (v if isinstance(v, list) else [v]):
            print('      ', x[:1500])
