"""Shared vocabulary of the contracts."""
import z3
from core import *
import core
import ex as X, lib, spec, prog, solve, terms
from ex import ghost0
from spec import Con
from solve import sunder
C={}        # contract used at every call of the function (and verified against its body unless trusted)
PROPS={}    # property -> contracts that state it (a property may state its own, stronger or different, contract of a function)
LATE=[]     # called once the program is loaded (vocabulary that needs its types)
LEMMAS={}   # property -> [(name, hypotheses, goal)]: derived axioms of the vocabulary, proved from its definition on every run
NOTES={}    # property -> assumptions worth recording
GENERAL_ASSUMPTIONS=['std::string values carry no embedded NUL byte','distinct path strings name distinct files (no links between the paths a package records)',
  'memory safety of the C++ standard containers (iterators valid, no data races: the program is single threaded)',
  'file names and C strings are shorter than 2 GiB','sizes and counters of 32 and 64 bits do not overflow (containers and files smaller than that); narrower ones wrap']
def add(c,*props):
    assert c.sig not in C, c.sig
    C[c.sig]=c
    for p in props: PROPS.setdefault(p,[]).append(c)
    return c
OVER={}     # property -> {signature: contract} used instead of C when that property is decided (each is verified too)
def over(pid,c): OVER.setdefault(pid,{})[c.sig]=c; return c
def contracts_for(pid): d=dict(C); d.update(OVER.get(pid,{})); return d
def root(pid,c): PROPS.setdefault(pid,[]).append(c); return c
def fa(vs,f,*pats):
    """forall with those of the given triggers that are usable"""
    from core import pat_ok
    ps=[p for p in pats if pat_ok(p)]
    return z3.ForAll(vs,f,patterns=ps) if ps else z3.ForAll(vs,f)
def lemma(name,hyps,goal,*props):
    for p in props: LEMMAS.setdefault(p,[]).append((name,hyps,goal))
def qs(*names): return [z3.Const(n+'!q',Str) for n in names]
