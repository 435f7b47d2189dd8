"""The command lines of schedulers and workers, interpreted with an unknown cluster."""
from sa.interp import Interp
from sa.values import NONE, V, const, show


def commands(c, name):
    """[(function, state, [value or None for an unknown stretch])] for every definition of `name` in the server"""
    out = []
    for f in c.prog.funcs.values():
        if f.name != name or f.cls is None or not f.module.name.startswith("dask_gateway_server"):
            continue
        owners = [f.cls] + [k for k in f.cls.subclasses() if k.find_method(name) is f]
        I = Interp(c.prog, c.types)
        for k in owners[:1]:
            st = I.new_state()
            self_ = V("param", "self")
            I.term_types[self_] = k.qual
            params = [a.arg for a in f.node.args.args][1:]
            for o in I.run_function(f, [V("param", p) for p in params if p != "scheduler_address"], selfv=self_, st=st):
                if o.kind != "ret":
                    continue
                segs = I.segs_of(o.val, o.st)
                out.append((f, o, [s[1] if s[0] == "one" else None for s in segs]))
        c.analysed(*I.inlined)
    return out


def option(args, flag):
    """the values that follow the flag"""
    return [args[i + 1] if i + 1 < len(args) else None for i, a in enumerate(args) if a is const(flag)]
