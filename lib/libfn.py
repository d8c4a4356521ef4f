"""Table-driven sub-checks for library functions."""
from runner import Sub
from engines import check_call, libcall, Err


class V(object):
    """one signature of a function: parameter types, return type, argument generator, reference"""
    def __init__(self, params, ret, gen, ref, weight=1, **opts):
        self.params, self.ret, self.gen, self.ref, self.weight, self.opts = params, ret, gen, ref, weight, opts


def fnsub(fcn, variants, quick=240, thorough=None, name=None, nontrivial=None):
    if isinstance(variants, V):
        variants = [variants]
    pairs = [(v.weight, v) for v in variants]

    def case(d):
        v = d.weighted(pairs)
        args = v.gen(d)
        nt = True if nontrivial is None else nontrivial(args)
        check_call(d, fcn, v.params, v.ret, args, v.ref, nontrivial=nt, **v.opts)
    return Sub(name or fcn, case, quick, thorough if thorough is not None else quick * 25)


import json as _json


def fcnarg(d, params, ret, body, k=None, name="cb"):
    """A function argument in one of its three forms: inline, reference, reference with filled parameter.

    body: expression (JSON) over the parameter names, and "kk" for the int constant k. -> (("expr", json), fcns)
    """
    form = d.below(3)
    plist = [{n: t} for n, t in params]
    if form == 0 or (form == 2 and k is None):
        b = _json.loads(_json.dumps(body).replace('"kk"', str(k)))
        return ("expr", {"params": plist, "ret": ret, "do": [b]}), None
    if form == 1:
        b = _json.loads(_json.dumps(body).replace('"kk"', str(k)))
        return ("expr", {"fcn": "u." + name}), {name: {"params": plist, "ret": ret, "do": [b]}}
    i = d.below(len(plist) + 1)
    return (("expr", {"fcn": "u." + name, "fill": {"kk": k}}),
            {name: {"params": plist[:i] + [{"kk": "int"}] + plist[i:], "ret": ret, "do": [body]}})
