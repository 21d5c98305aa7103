"""The SPIR-V specification's machine-readable grammar (vendored in /verif/spec, published by Khronos): the independent oracle."""
import json, os
from .facts import VERIF


class Core:
    def __init__(self):
        d = json.load(open(os.path.join(VERIF, 'spec', 'spirv.core.grammar.json')))
        self.raw = d
        self.insts = {}
        self.by_op = {}
        for i in d['instructions']:
            self.insts[i['opname']] = i
            for a in i.get('aliases', []):
                self.insts[a] = i
            self.by_op.setdefault(i['opcode'], i)
        self.kinds = {k['kind']: k for k in d['operand_kinds']}

    def category(self, k):
        return self.kinds[k]['category']

    def bases(self, k):
        return self.kinds[k]['bases']

    def has_params(self, k):
        return any(e.get('parameters') for e in self.kinds[k].get('enumerants', []))

    def enumerants(self, k):
        return self.kinds[k].get('enumerants', [])

    def name_of(self, op):
        i = self.by_op.get(op)
        return i['opname'] if i else str(op)


def core():
    return Core()


def glsl():
    d = json.load(open(os.path.join(VERIF, 'spec', 'extinst.glsl.std.450.grammar.json')))
    return {i['opname']: i for i in d['instructions']}


def opencl():
    d = json.load(open(os.path.join(VERIF, 'spec', 'extinst.opencl.std.100.grammar.json')))
    return {i['opname']: i for i in d['instructions']}


def delta():
    """entries in which the vendored grammar is newer than the revision the project's tables were generated from"""
    return json.load(open(os.path.join(VERIF, 'spec', 'revision_delta.json')))
