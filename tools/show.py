import json,sys
d=json.load(open(sys.argv[1])); c=d['case']; print(d['message'])
dflt=dict(logloss=False,iterations=1,learning_rate=1.0,max_depth=3,max_leaves=18446744073709551615,l1=0.0,l2=1.0,gamma=0.0,max_delta_step=0.0,min_leaf_weight=1.0,base_score=0.0,nbins=256,parallel=False,allow_missing_splits=True,mono=None,subsample=1.0,top_rate=.1,other_rate=.2,colsample=1.0,seed=0,missing='NaN',missing_branch=False,sample=0,lossguide=False,metric=None,esr=None,init_base=False,terminate=[],treatment=1,log_iterations=0,force_bound=False)
print({k:v for k,v in c['params'].items() if v!=dflt.get(k)}); D=c['data']
n=D['rows']
for i in range(min(n,40)): print([D['x_colmajor'][j*n+i] for j in range(D['cols'])],'y',D['y'][i],'w',D['w'][i])
print('evals',[ (e['rows'],e['y'],e['w']) for e in c['evals']][:3]); print('probes',c['probes'][:5]); print(c['nums'],c['strs'],str(c['extra'])[:1500])
