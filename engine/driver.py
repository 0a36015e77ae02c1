"""Set up an engine for one contract entry point."""
import os
import sys
import core
from core import *
import models
import store

BUILD = os.environ.get('VF_BUILD', '/verif/build')


def session(bounds=None):
    sv = Server(BUILD + '/ms/debug/mirserver', BUILD + '/args', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
    en = Engine(sv, bounds)

    return en


class Entry:
    pass


def setup(en, path, msg_variant=None, prefix=''):
    """symbolic arguments for an entry point"""
    inst = en.sv.find(path)
    if inst is None:
        raise Unsupported(f'no entry point {path}')
    sig = en.sv.sig(inst)
    e = Entry()
    e.inst = inst
    e.args = []
    e.msg = e.env = e.info = None
    for i, t in enumerate(sig[:-1]):
        n = en.ty(t)['n']
        if 'deps::Deps' in n:
            e.args.append((O('storage'), O('api'), (O('querier'), ())))
        elif n.endswith('types::Env'):
            e.env = en.mk(prefix + 'env', t)
            e.args.append(e.env)
        elif n.endswith('MessageInfo'):
            e.info = en.mk(prefix + 'info', t)
            e.args.append(e.info)
        else:
            tt = en.ty(t)
            e.msgty = t
            if tt['k'] == 'enum' and msg_variant is not None:
                v = en.variant(t, msg_variant)
                e.msg = E(v, tuple(en.mk(f'{prefix}msg.{fn}', ft) for fn, ft in tt['v'][v]['f']))
                e.msgfields = [fn for fn, _ in tt['v'][v]['f']]
            else:
                e.msg = en.mk(prefix + 'msg', t)
            e.args.append(e.msg)
    e.ret = sig[-1]
    return e
