#!/opt/venv/bin/python
''' replay.py FILE | -: run counterexamples on the real, unmodified code of /repo (no shims, no stubs, ordinary integers). '''
import importlib
import json
import os
import signal
import sys
import traceback
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from symx import env
env.load_z3()

class Timeout(BaseException): pass
def alarm(*_): raise Timeout()

def run(spec, per=60):
    from symx import engine as E
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(per)
    try:
        env.load_curver()
        module = importlib.import_module('props.' + spec['module'])
        ctx = E.ConcreteCtx(spec['assignment'])
        getattr(module, spec['harness'])(ctx, **spec['params'])
        return {'outcome': 'holds'}
    except E.ConcreteCtx.Failed as e: return {'outcome': 'fails', 'detail': str(e)[:2000]}
    except E.ConcreteCtx.Skipped as e: return {'outcome': 'skipped', 'detail': str(e)[:500]}
    except Timeout: return {'outcome': 'timeout'}
    except E.Inconclusive as e: return {'outcome': 'inconclusive', 'detail': str(e)}
    except E.PathAbort: return {'outcome': 'skipped'}
    except Exception as e: return {'outcome': 'fails', 'detail': 'raised %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-6))}
    finally: signal.alarm(0)

if __name__ == '__main__':
    if sys.argv[1] == '-':
        print(json.dumps([run(s) for s in json.load(sys.stdin)]))
    else:
        spec = json.load(open(sys.argv[1]))
        result = run(spec, 600)
        print(json.dumps(spec, indent=1))
        print(result['outcome'], result.get('detail', ''))
        sys.exit(1 if result['outcome'] == 'fails' else 0)
