import json,sys
for p in sys.argv[1:]:
    e=json.load(open('evidence/%s.json'%p)); c=e['coverage']
    print(p,'wall',e['wall_s'],'runs',c['evaluations'],'distinct',c['distinct_nontrivial'],'checks',c['oracle_checks'],'states',c['distinct_states']['count'])
    print('  faults',c['faults_injected']); print('  probes',c['probes']); print('  ',{k:(v['batch_s'],v['runs'],v['nontrivial']) for k,v in c['per_configuration'].items()})
