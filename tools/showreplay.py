import json,sys
for d in json.load(open(f'/verif/replay/{sys.argv[1]}.json')):
    t=(d['detail'] or {}).get('trace_up_to_rejection')
    if not t: print(str(d)[:1500]); continue
    print(json.dumps(t[-1])[:int(sys.argv[2]) if len(sys.argv)>2 else 1500])
    for x in t[:-1]:
        if 'id' in t[-1] and x['ev']=='Lat' and x.get('id')==t[-1]['id']: print('   ',{k:x[k] for k in ('how','sym','recip','snap','i','scale','g','turn')})
