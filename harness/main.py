import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

MODULES = {
    'C27': 'c_head', 'C28': 'c_opt', 'C29': 'c_keep',
    'C23': 'c_slurp',
    'C24': 'c_net', 'C25': 'c_net',
    'C20': 'c_text', 'C21': 'c_text', 'C22': 'c_text',
    'C16': 'c_message', 'C17': 'c_message', 'C18': 'c_message', 'C19': 'c_message',
    'C11': 'c_corpus', 'C12': 'c_corpus', 'C13': 'c_corpus', 'C14': 'c_corpus', 'C15': 'c_corpus', 'C26': 'c_corpus',
    'C08': 'c_safe', 'C09': 'c_safe',
    'C10': 'c_cdb',
    'C04': 'c_score', 'C05': 'c_score',
    'C01': 'c_store', 'C02': 'c_store', 'C03': 'c_store', 'C06': 'c_store', 'C07': 'c_store',
}


def main(argv):
    prop = argv[0]
    ctx = vlib.Ctx(prop)
    try:
        mod = importlib.import_module(MODULES[prop])
        if len(argv) > 2 and argv[1] == '--replay':
            with open(argv[2]) as f:
                return mod.replay(ctx, json.load(f))
        rc = mod.run(ctx)
    except vlib.MachineryError as e:
        print('MACHINERY ERROR in %s: %s' % (prop, e))
        rc = 2
        if ctx.violations:
            rc = ctx.finish('exploration', explanation='machinery error after a violation')
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.close()
    return rc


sys.exit(main(sys.argv[1:]))
