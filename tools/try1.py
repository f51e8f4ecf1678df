import sys, time
sys.path.insert(0, '/verif')
from kai.mir import Prog
from kai.engine import *
from kai import poly
p = Prog('/tmp/drv/out/kofft.lib.json')
for name in sys.argv[1:]:
    for fn in p.by_path[name]:
        poly.reset()
        E = Engine(p)
        st = State()
        t0 = time.time()
        args = [E.fresh_val(st, fn.locals[i][0], fn.locals[i][1] or f'a{i}', frozenset({f'arg:{fn.locals[i][1]}'}), INPUT, f'arg:{fn.locals[i][1]}') for i in range(1, fn.argc + 1)]
        try:
            outs = E.exec_fn(fn, args, st)
        except Giveup as e:
            print(fn.key, 'GIVEUP', e); continue
        print(fn.key, 'outs', len(outs), 'loops', len(E.loops), 'steps', E.steps, '%.2fs' % (time.time() - t0), 'unknown', E.unknown)
        E.settle()
        for o in E.obls.values():
            print('   ', 'VIOL' if o.viol else 'undec' if o.undec else 'ok', o.kind, o.line, o.desc, o.model if o.viol else '')
        for s, v in outs[:6]:
            print('   ->', str(v)[:150], [show(c) for c in s.cons][:12], [show(c)+'!=0' for c in s.nes], [show(c)+' pow2' for c in s.pow2], sorted(map(str,s.eff))[:6])
