"""Shared vocabulary of the contracts on graph elements."""
from cgv.spec import *

RB, DP, BL, LD = "GElement.run_before_", "GElement.dependence_", "GElement.belong_", "GElement.left_depend_"
a_, b_, r_, i_, j_ = z3.Int("qa"), z3.Int("qb"), z3.Int("qr"), z3.Int("qi"), z3.Int("qj")


def edges_sym(ex, st=None):
    sv = ex.st
    m = ex.rd(RB, a_, st).m; d = ex.rd(DP, b_, st).m
    return ForAll([a_, b_], m[b_] == d[a_], patterns=[m[b_], d[a_]])
def edges_irr(ex, st=None):
    d = ex.rd(DP, a_, st).m
    return ForAll([a_], Not(d[a_]), patterns=[d[a_]])
def edges_owner(ex, st=None):
    d = ex.rd(DP, a_, st).m
    return ForAll([a_, b_], Implies(d[b_], And(ex.rd(BL, a_, st) == ex.rd(BL, b_, st), b_ != 0)), patterns=[d[b_]])
def edges_null(ex, st=None):
    d = ex.rd(DP, z3.IntVal(0), st)
    return ForAll([b_], Not(d.m[b_]), patterns=[d.m[b_]])
def pending(ex, st=None):
    ld = ex.rd(LD, a_, st); d = ex.rd(DP, a_, st)
    return ForAll([a_], ld == d.hi, patterns=[ld])


def EDGES(ex, st=None):
    return [("predecessor and successor sets mirror each other", edges_sym(ex, st)), ("no element depends on itself", edges_irr(ex, st)),
            ("both ends of an edge have the same owner", edges_owner(ex, st)), ("null has no predecessors", edges_null(ex, st))]
