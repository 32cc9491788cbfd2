import sys
import core,gen,json
env=core.Env('dbg')
v=core.PLAIN
env.prepare([v])
d=json.load(open(sys.argv[1]))
r=core.Result(); r.spec=d['spec']; r.status='fail'
b=core.shrink_spec(env,r,v,['--cases','300','--seed','8']+sys.argv[2:],'fail',400)
print(gen.emit_types(gen.typed(b.spec))); print(b.report,b.ops)
json.dump(dict(spec=b.spec,ops=b.ops,pattern=b.pattern),open('/tmp/shrunk.json','w'))
env.close()
