"""Which harness decides which property, with which bounds."""

COMMON_ASSUMPTIONS = [
    "clang 18 -O2 LLVM IR of the current /repo sources is what is executed symbolically; the engine's IR semantics are validated by replaying sampled paths natively (g++)",
    "memory allocation does not fail",
]


def P(**kw):
    return [dict(kw)]


PROPS = {}

PROPS["P11"] = dict(
    bounds="full int32/int64 width for add, sub, inv, midpoint and casts; mul, div, mod: all int8 pairs, and int32/int64 full-range operand against every second operand in [-5,5] (and for mul first operand in [-3,3]); "
           "rounding division: every divisor in [-9,9] with full-range int32 and int64 dividends",
    sources=[],
    units=[
        dict(tu="arith", entry="safe8", jobs=1, quick=[dict(op=i) for i in range(6)]),
        dict(tu="arith", entry="safe32", jobs=1, quick=[dict(op=i) for i in (0, 1, 5)] + [dict(op=i, small=5, side=1) for i in (2, 3, 4)] + [dict(op=2, small=3, side=0)]),
        dict(tu="arith", entry="safe64", jobs=1, quick=[dict(op=i) for i in (0, 1, 5)] + [dict(op=i, small=5, side=1) for i in (2, 3, 4)] + [dict(op=2, small=3, side=0)]),
        dict(tu="arith", entry="round32", jobs=1, quick=[dict(small=9, ceil=c) for c in (0, 1)]),
        dict(tu="arith", entry="round64", jobs=1, quick=[dict(small=9, ceil=c) for c in (0, 1)]),
        dict(tu="arith", entry="mid32", jobs=1), dict(tu="arith", entry="mid64", jobs=1),
        dict(tu="arith", entry="casts", jobs=1), dict(tu="arith", entry="valid", jobs=1),
    ])

PROPS["P10"] = dict(
    bounds="every sequence of up to 4 add operations with end points anywhere in [-10^6,10^6] and any probe; union of two sets built from 2+2 intervals; enumeration of sets built from up to 3 intervals over [-2,2]",
    sources=[],
    units=[
        dict(tu="intervals", entry="add", quick=[dict(n=2), dict(n=3)], thorough=[dict(n=3), dict(n=4)]),
        dict(tu="intervals", entry="extend", quick=[dict(n=2, m=1), dict(n=1, m=2)], thorough=[dict(n=2, m=2)]),
        dict(tu="intervals", entry="enumerate", quick=[dict(n=2, lim=2)], thorough=[dict(n=3, lim=2)]),
    ])

WORLD = "the solver side of clingo's propagator interface is the reference implementation harness/world.hh (assignment, trail, levels, watches, clause addition, naive unit propagation, exhaustive DPLL search)"

PROPS["P01"] = dict(
    bounds="one constraint over up to 3 variables and two constraints over 2 shared variables; domains of 3 to 5 consecutive values (also negative ones); every nonzero coefficient in [-2,2] (one variable: [-3,3]), every right-hand side in the stated range; "
           "all decisions of an exhaustive search with the first 1-2 decisions chosen arbitrarily; all values of the integer variables for each clause",
    assumptions=[WORLD],
    sources=["constraints", "solver"],
    units=[dict(tu="sum", entry="search", jobs=8, timeout=800,
        quick=[dict(which=1, conc=1, vars=2, dom=3, fork=1, co=2, cfg=7, rhs=8), dict(which=1, conc=1, vars=2, cons=2, dom=2, fork=0, co=1, cfg=7, rhs=3),
               dict(which=1, conc=1, vars=3, dom=2, fork=0, co=2, cfg=3, rhs=4), dict(which=1, conc=1, vars=2, dom=2, fork=1, co=2, cfg=2, rhs=4, lo=-1),
               dict(which=1, conc=1, vars=1, dom=4, fork=2, co=3, cfg=1, rhs=10), dict(which=1, conc=1, vars=2, dom=2, fork=1, co=2, cfg=0, rhs=4, fact=1)],
        thorough=[dict(which=1, conc=1, vars=3, dom=2, fork=1, co=2, cfg=7, rhs=5), dict(which=1, conc=1, vars=2, dom=4, fork=2, co=3, cfg=7, rhs=12),
                  dict(which=1, conc=1, vars=2, cons=2, dom=2, fork=1, co=1, cfg=7, rhs=3), dict(which=1, conc=1, vars=3, dom=2, fork=1, co=2, cfg=0, rhs=5, lo=-1)])])

PROPS["P02"] = dict(
    bounds="as P01, checking every propagation fixpoint and every accepted assignment reached by the search",
    assumptions=[WORLD],
    sources=["constraints", "solver"],
    units=[dict(tu="sum", entry="search", jobs=8, timeout=800,
        quick=[dict(which=2, conc=1, vars=2, dom=3, fork=1, co=2, cfg=7, rhs=8), dict(which=2, conc=1, vars=2, cons=2, dom=2, fork=0, co=1, cfg=7, rhs=3),
               dict(which=2, conc=1, vars=3, dom=2, fork=0, co=2, cfg=3, rhs=4), dict(which=2, conc=1, vars=2, dom=2, fork=1, co=2, cfg=2, rhs=4, lo=-1),
               dict(which=2, conc=1, vars=1, dom=4, fork=2, co=3, cfg=1, rhs=10), dict(which=2, conc=1, vars=2, dom=2, fork=1, co=2, cfg=0, rhs=4, fact=1)],
        thorough=[dict(which=2, conc=1, vars=3, dom=2, fork=1, co=2, cfg=7, rhs=5), dict(which=2, conc=1, vars=2, dom=4, fork=2, co=3, cfg=7, rhs=12),
                  dict(which=2, conc=1, vars=2, cons=2, dom=2, fork=1, co=1, cfg=7, rhs=3), dict(which=2, conc=1, vars=3, dom=2, fork=1, co=2, cfg=0, rhs=5, lo=-1)])])

PROPS["P12"] = dict(
    bounds="every sequence of up to 3 operations (store, get-or-add, remove, tighten a bound on the same or a new level, backtrack, copy/move) on domains of 3, 12 and 25 values placed anywhere in [-10^6,10^6] with arbitrary literals, in both representations and across the conversion; every lookup value in and around the domain",
    sources=[],
    units=[dict(tu="varstate", entry="ops", quick=[dict(n=3, size=3), dict(n=2, size=25, pre=2, kinds=3), dict(n=2, size=12, pre=1)],
        thorough=[dict(n=4, size=2), dict(n=3, size=12, pre=1, kinds=3), dict(n=3, size=12, pre=2, kinds=2)])])

ORD = dict(tu="orders", entry="search", jobs=8, timeout=800)
PROPS["P13"] = dict(
    bounds="one or two variables with 3-4 values (also at an arbitrary position in [-1000,1000]); literals requested during initialisation (also outside the domain) and at any fixpoint of an exhaustive search, mixed with one single-variable constraint, domain or sum",
    assumptions=[WORLD], sources=["constraints", "solver"],
    units=[dict(ORD, quick=[dict(which=1, pre=2, size=2, fork=1), dict(which=1, pre=1, simples=1, size=2, lits=1, fork=0, co=1), dict(which=1, lits=2, size=4, fork=1, cfg=16),
                            dict(which=1, pre=1, doms=1, size=2, fork=0), dict(which=1, pre=1, lits=1, symlo=1, size=2, fork=0)],
                thorough=[dict(which=1, pre=2, simples=1, size=3, fork=0, co=1), dict(which=1, lits=3, size=4, fork=2), dict(which=1, lits=1, vars=2, sums=1, size=2, fork=1)])])
PROPS["P14"] = dict(
    bounds="one variable with 3-4 values; unions of up to two intervals (also empty and reaching beyond the domain) or single-variable constraints with coefficients in [-2,2] and every right-hand side around the domain, strict and non-strict, up to two of them; "
           "literals that are true, false, free, negative, equal or complementary; all values of the variable for every clause and the bounds; exhaustive search",
    assumptions=[WORLD], sources=["constraints", "solver"],
    units=[dict(ORD, quick=[dict(which=2, doms=1, minparts=0, size=3), dict(which=2, simples=1, size=3, co=2), dict(which=2, simples=2, size=2, co=1, fork=0, share=1), dict(which=2, doms=1, simples=1, size=2, co=1, fork=0),
                            dict(which=2, simples=1, pre=1, size=2, co=1, fork=0), dict(which=2, simples=1, size=2, symlo=1, fork=0)],
                thorough=[dict(which=2, doms=2, size=2, fork=0), dict(which=2, simples=2, size=3, co=2, fork=0), dict(which=2, doms=1, simples=1, size=3, co=1, fork=0)])])
PROPS["P15"] = dict(
    bounds="two variables with 3 values, one or two sum constraints with coefficients +-1 and arbitrary right-hand sides, literals requested in between; every state of an exhaustive search compared after each backtracking step",
    assumptions=[WORLD], sources=["constraints", "solver"],
    units=[dict(ORD, quick=[dict(which=8, vars=2, sums=1, size=2, lits=1, fork=0), dict(which=8, vars=2, sums=1, size=2, fork=1), dict(which=8, vars=3, sums=1, size=1, fork=1), dict(which=8, vars=1, sums=2, size=3, fork=1)],
                thorough=[dict(which=8, vars=2, sums=2, size=2, fork=0), dict(which=8, vars=2, sums=1, size=3, fork=2), dict(which=8, vars=3, sums=1, size=2, fork=0)])])
PROPS["P16"] = dict(
    bounds="one or two variables with 3-5 values; order literals from single-variable constraints, domains, requests and splitting; every fixpoint of an exhaustive search, with and without chain propagation",
    assumptions=[WORLD], sources=["constraints", "solver"],
    units=[dict(ORD, quick=[dict(which=5, simples=1, lits=1, size=3, cfg=0, fork=1, co=1), dict(which=5, doms=1, simples=1, size=2, co=1, fork=0), dict(which=5, simples=1, lits=1, size=2, cfg=4, fork=1),
                            dict(which=5, vars=2, sums=1, size=2, cfg=4, fork=0), dict(which=5, lits=2, size=5, cfg=8, fork=2)],
                thorough=[dict(which=5, simples=2, size=3, co=1, fork=1), dict(which=5, doms=1, simples=1, size=3, co=1, fork=0), dict(which=5, vars=2, sums=1, lits=1, size=2, fork=1)])])
PROPS["P22"] = dict(
    bounds="one or two variables with 3-5 values, order literals from requests, splitting, single-variable constraints and sums; any fallback literal at the first 1-3 decisions of an exhaustive search; both heuristics",
    assumptions=[WORLD], sources=["constraints", "solver"],
    units=[dict(ORD, quick=[dict(which=16, cfg=36, lits=2, fork=3, size=4), dict(which=16, cfg=36, simples=1, fork=2), dict(which=16, cfg=4, lits=1, fork=2, size=3), dict(which=16, cfg=36, vars=2, fork=1, size=2, sums=1),
                            dict(which=16, cfg=44, lits=1, vars=2, fork=2, size=2)],
                thorough=[dict(which=16, cfg=36, vars=2, lits=1, fork=2, size=2, sums=1), dict(which=16, cfg=36, lits=3, fork=3, size=5)])])

def prog(text):
    return dict((k, int(v)) for k, v in (x.split("=") for x in text.split(",")))


PROG = dict(tu="prop", entry="prog", jobs=8, timeout=800)
PSRC = ["constraints", "solver", "propagator", "parsing"]
THEORY = "clingo's theory atom, symbol, model and statistics interfaces are stand-ins with the documented behaviour (harness/theory.hh); the oracle evaluates the atoms from the terms themselves"

GLOB = dict(tu="glob", entry="search", jobs=8, timeout=800)
GFULL = dict(tu="glob", entry="full", jobs=8, timeout=800)
MAXV = (1 << 30) - 1
PROPS["P03"] = dict(
    bounds="2-4 elements over variables with 2-4 values each: plain variables, signed coefficients in [-2,2], a sum of two variables, constants; arbitrary offsets in [-2,2]; variables that are already fixed before the constraint is added; "
           "constraint literal true, false or free; all decisions of an exhaustive search with the first 0-1 decisions arbitrary, also with learnt clauses deleted on backtracking; the final check on every assignment in [-20,20] (up to [-1000,1000])",
    assumptions=[WORLD, THEORY], sources=PSRC,
    units=[dict(GLOB, quick=[dict(kind=0, vars=2, dom=3, fork=1, which=3), dict(kind=0, vars=3, dom=2, fork=1, which=3, forget=1), dict(kind=0, vars=2, dom=2, form=1, fork=1, which=3, co=2), dict(kind=0, vars=3, dom=1, form=2, fork=1, which=3),
                             dict(kind=0, vars=2, dom=2, form=3, fork=1, which=3), dict(kind=0, vars=3, dom=2, single=7, fork=0, which=3), dict(kind=0, vars=3, dom=2, single=3, fork=0, which=3, fact=1), dict(kind=0, vars=3, dom=3, fork=1, which=3, off=2),
                             dict(kind=0, vars=4, dom=2, fork=0, which=3, forget=1), dict(kind=0, vars=3, dom=2, single=1, fork=0, which=3), dict(kind=0, vars=2, dom=2, single=2, form=1, fork=0, which=3), dict(kind=0, vars=3, dom=2, form=2, co=2, fork=0, which=3, early=1)]
                      + [dict(kind=0, vars=2, dom=1, fork=1, which=3, ask=1, forget=1, pos=1), dict(kind=0, vars=3, dom=2, fork=1, which=3, ask=1, forget=1, pos=2), dict(kind=0, vars=3, dom=1, form=2, fork=1, which=3, ask=1, forget=1, pos=1)],
                thorough=[dict(kind=0, vars=4, dom=3, fork=1, which=3), dict(kind=0, vars=4, dom=2, form=2, fork=0, which=3, co=2), dict(kind=0, vars=3, dom=2, form=1, fork=1, which=3, co=2)]),
           dict(GFULL, quick=[dict(kind=0, vars=3), dict(kind=0, vars=3, form=2, co=2, lim=1000), dict(kind=0, vars=2, form=3, co=3)]),
           dict(PROG, quick=[prog(x) for x in ("dists=1,vars=2,dvars=1,off=1,lit=3,hi=1", "dists=1,vars=3,dvars=2,off=1,lit=3,hi=1", "dists=1,vars=2,dform=1,co=2,off=1,lit=3,hi=2", "dists=1,vars=2,dform=2,co=1,off=1,lit=3,hi=1", "dists=1,vars=2,dform=3,hi=2,lit=3")])])
PROPS["P04"] = dict(
    bounds="2-4 tasks with 3-5 possible start times (also close to the largest representable value) and every duration up to 2-3 (also close to the largest representable value); constraint literal true, false or free; starts fixed before the constraint is added; "
           "all decisions of an exhaustive search with the first 0-1 decisions arbitrary, also with learnt clauses deleted on backtracking; the final check on every assignment in [-20,20] and durations up to 5",
    assumptions=[WORLD, THEORY], sources=PSRC,
    units=[dict(GLOB, quick=[dict(kind=1, vars=2, dom=3, fork=1, which=3, dmax=3), dict(kind=1, vars=3, dom=3, fork=0, which=3, dmax=2), dict(kind=1, vars=3, dom=3, fork=1, which=3, dmax=2, forget=1), dict(kind=1, vars=2, dom=3, fork=1, which=3, single=1, fact=1),
                             dict(kind=1, vars=4, dom=3, fork=0, which=3, dmax=2), dict(kind=1, vars=3, dom=3, single=2, fork=0, which=3), dict(kind=1, vars=3, dom=4, fork=0, which=3, dmax=3, conc=1), dict(kind=1, vars=3, dom=3, single=7, which=3, dmax=2, fact=1, fork=0),
                             dict(kind=1, vars=2, lo=MAXV - 2, dom=2, which=1, dmin=MAXV - 2, dmax=MAXV, fork=0), dict(kind=1, vars=3, lo=1 - MAXV, dom=2, which=1, dmin=MAXV - 2, dmax=MAXV, fork=0),
                             dict(kind=1, vars=2, dom=3, fork=1, dmax=3, which=3, ask=1, forget=1, pos=1), dict(kind=1, vars=3, dom=3, fork=0, dmax=2, which=3, ask=1, forget=1, pos=2)],
                thorough=[dict(kind=1, vars=3, dom=4, fork=1, which=3, dmax=3), dict(kind=1, vars=4, dom=4, fork=0, which=3, dmax=2), dict(kind=1, vars=4, dom=4, fork=1, which=3, dmax=2, conc=1, forget=1)]),
           dict(GFULL, quick=[dict(kind=1, vars=3, dmax=5)]),
           dict(PROG, quick=[prog(x) for x in ("disjs=1,vars=2,djsame=1,hi=2,lit=3,dmin=-1,dmax=2", "disjs=1,vars=3,djsame=1,hi=2,lit=3,dmin=0,dmax=2", "disjs=1,vars=2,hi=3,lit=3,dmin=-1,dmax=3,lo=-1")])])
PROPS["P05"] = dict(
    bounds="one constraint a*x*y + b*z <= c with a, b in [-2,2] (with and without linear part, also x*x and z equal to x) and every c in [-4,4]; variables with 2-5 values including negative ones; literal true, false or free; all decisions of an exhaustive search; "
           "the final check on every assignment in [-3,3]",
    assumptions=[WORLD, THEORY], sources=PSRC,
    units=[dict(GLOB, quick=[dict(kind=2, vars=3, dom=1, fork=0, which=3, zvar=2), dict(kind=2, vars=3, dom=2, fork=0, which=3, zvar=2, lo=-1), dict(kind=2, vars=1, dom=4, fork=1, which=3, square=1, lin=0, lo=-2, co=2),
                             dict(kind=2, vars=2, dom=2, fork=0, which=3, zvar=0, lo=-1, co=1, conc=1), dict(kind=2, vars=2, dom=3, fork=1, which=3, lin=0, lo=-1, co=1, rhs=6), dict(kind=2, vars=3, dom=1, fork=1, which=3, zvar=2, lo=-1, co=2, fact=1),
                             dict(kind=2, vars=2, dom=3, fork=1, lin=0, lo=-1, co=1, rhs=6, which=3, ask=1, forget=1, pos=1),
                             dict(kind=2, vars=2, dom=4, lo=-2, lin=0, co=1, rhs=5, fork=0, which=3), dict(kind=2, vars=2, dom=3, lo=-2, lin=0, co=2, rhs=5, fork=1, which=3), dict(kind=2, vars=3, dom=2, zvar=2, lo=-1, co=1, rhs=3, fork=0, which=3, pos=1, conc=1)],
                thorough=[dict(kind=2, vars=2, dom=2, fork=1, which=3, zvar=0, lo=-1, co=2, conc=1), dict(kind=2, vars=3, dom=2, fork=1, which=3, zvar=2, lo=-1, co=2), dict(kind=2, vars=3, dom=3, fork=0, which=3, zvar=2, lo=-2, co=2, rhs=6)]),
           dict(GFULL, quick=[dict(kind=2, vars=3, co=1, lim=2), dict(kind=2, vars=1, square=1, lin=0)]),
           dict(PROG, quick=[prog(x) for x in ("nsums=1,nform=0,vars=2,lo=-2,hi=2,op=-1,rhs=5", "nsums=1,nform=3,vars=2,lo=-1,hi=1,lit=3,op=0")])])

PROPS["P06"] = dict(
    bounds="one or two sums over 2-3 variables with 2-3 values, coefficients in [-2,2], all relations; distinct constraints over 2-3 (sums of) terms with offsets; one or two objectives; each translated to clauses, weight constraints, order literals or simpler constraints, "
           "also with per-constraint and total clause limits that stop the translation part way; every assignment of literals and integers, exhaustive search; also over several solving steps",
    assumptions=[WORLD, THEORY], sources=PSRC,
    units=[dict(PROG, quick=[prog(x) for x in (
        "sums=1,vars=2,hi=2,clauses=100,op=0,body=1,rhs=3,co=2", "sums=1,vars=2,hi=2,clauses=100,op=-1,body=2,rhs=2", "sums=1,vars=2,hi=2,wcr=10,op=0,rhs=3,co=2", "sums=1,vars=2,hi=2,wcr=10,op=-1,rhs=2,lonly=1",
        "sums=1,vars=2,hi=2,clauses=100,op=0,lonly=1,rhs=2", "sums=1,vars=3,lo=-1,hi=0,clauses=100,op=0,rhs=2,co=2,body=0", "sums=1,vars=2,hi=2,clauses=3,total=4,op=-1,rhs=2", "sums=2,vars=2,hi=1,clauses=100,total=2,op=0,rhs=1,conc=1",
        "dists=1,vars=3,dlimit=100,hi=2", "dists=1,vars=2,dlimit=100,hi=2,dform=1,co=2,lit=3", "dists=1,vars=2,dlimit=100,dform=2,clauses=100,off=1,hi=1", "dists=1,vars=3,dlimit=100,clauses=100,wcr=10", "dists=1,vars=3,dlimit=100,hi=2,clauses=3",
        "dists=1,vars=3,dlimit=2,hi=2", "mins=1,vars=2,tmin=100,co=2,hi=2,off=1", "mins=2,vars=2,tmin=100,max=1,hi=1", "sums=1,vars=2,hi=2,clauses=100,steps=2,sums2=1,from2=1,rhs=1,rhs2=1,op=0",
        "sums=1,order=1,vars=2,hi=2", "doms=1,vars=1,order=1,lit=3,hi=2", "dists=1,dform=3,vars=2,co=2,dlimit=3,steps=2,lo=-1,hi=2", "dists=1,dform=3,vars=2,co=2,dlimit=8,hi=3", "dists=1,dform=3,vars=2,dlimit=5,hi=2")],
        thorough=[prog(x) for x in ("sums=2,vars=2,hi=1,clauses=100,total=5,op=0,conc=0", "sums=1,vars=3,hi=1,wcr=10,op=-1,rhs=2,co=2,lo=-1", "sums=1,vars=3,hi=2,clauses=100,op=0,rhs=4,co=2", "mins=1,sums=1,vars=2,tmin=100,co=1,hi=2,op=-1",
                                   "dists=1,vars=3,dlimit=100,dform=1,co=2,hi=2,off=1", "sums=1,dists=1,vars=3,hi=2,dlimit=100,clauses=100")])])

PROPS["P07"] = dict(
    bounds="one or two theory atoms: &sum over up to 3 variables (coefficients in [-2,2], constants, variables on the right-hand side), &diff in all its forms, &nsum with one or two products and a linear part; every relation, head and body, "
           "literals that are free, true, false, negated or shared by two atoms; domains of 2-4 values; answer sets compared with those of the atoms read literally, by exhaustive search",
    assumptions=[WORLD, THEORY], sources=PSRC,
    units=[dict(PROG, quick=[prog(x) for x in (
        "sums=1,vars=2,hi=1,op=-1,body=2,rhs=2", "sums=1,vars=1,hi=3,op=-1,body=2,rhs=3,co=3,lit=3", "sums=1,vars=2,hi=1,op=-1,rhs=1,right=1,off=1,conc=0", "diffs=1,op=-1,body=2,hi=2,rhs=2", "sums=1,vars=2,hi=1,op=-1,body=2,rhs=1,lit=4,lo=-1",
        "nsums=1,nform=0,op=-1,body=2,co=2,lo=-1,hi=1", "nsums=1,nform=1,vars=3,op=-1,co=1,hi=1,lo=0", "nsums=1,nform=2,op=-1,co=2,lo=-2,hi=1,body=2", "nsums=1,nform=3,op=-1,co=1,lo=-1,hi=1", "nsums=1,nform=4,op=-1,co=1,lo=-1,hi=1,off=1",
        "nsums=1,nform=5,reject=1,op=0,hi=1", "nsums=1,nform=6,vars=3,op=-1,hi=1,body=0", "sums=1,diffs=1,vars=2,hi=1,lit=5,op=0,rhs=1", "sums=1,vars=2,lit=3,op=-1,hi=1,body=2,rhs=1")],
        thorough=[prog(x) for x in ("sums=1,vars=3,hi=1,op=-1,body=2,rhs=3,co=2", "sums=1,vars=2,hi=2,op=-1,rhs=2,right=2,off=1,co=1", "nsums=1,nform=6,vars=3,op=-1,lo=-1,hi=1,co=2,body=2,rhs=4", "sums=2,vars=2,hi=1,op=-1,lit=5,rhs=1", "sums=2,vars=2,hi=1,op=-1,lit=6,rhs=1")])])

PROPS["P17"] = dict(
    bounds="two or three solving steps over 2-3 shared variables with 2-4 values, each adding sums, domains, distinct constraints, objectives or nothing new, also with top-level facts found in the search, literals and clauses that live for one step only; one or two solver threads (their searches run one after the other); exhaustive search in each step",
    assumptions=[WORLD, THEORY], sources=PSRC,
    units=[dict(PROG, quick=[prog(x) for x in (
        "steps=2,sums=1,sums2=1,vars=2,hi=1,op=0,op2=0,rhs=1,rhs2=1", "steps=2,sums=1,vars=2,hi=2,op=0,rhs=2,fork=1", "steps=2,sums=1,doms2=1,vars=2,hi=1,lit=1,rhs=1,op=0", "steps=2,doms=1,vars=1,hi=2,lit=1,sums2=1,vars2=2,op2=0,rhs2=1",
        "threads=2,steps=2,sums=1,vars=2,hi=1,op=0,rhs=1", "threads=2,steps=2,sums=1,lit=1,sums2=1,vars=2,hi=1,op=0,op2=0,rhs=1,rhs2=1,from2=1", "steps=3,sums=1,lit=1,vars=1,hi=2,sums2=1,vars2=1,sums3=1,op=0,op2=0,op3=0,rhs=1,rhs2=1,rhs3=1,conc=0",
        "steps=2,dists=1,vars=3,hi=2,lit=1,sums2=1,vars2=2,op2=0,rhs2=1", "steps=2,nsums=1,nform=1,vars=3,hi=1,op=0,sums2=1,vars2=1,op2=0,rhs2=1", "steps=2,disjs=1,vars=2,hi=2,dmax=2,lit=1,sums2=1,op2=0,rhs2=1", "steps=2,sums=1,vars=2,hi=1,clauses=100,op=0,sums2=1,op2=0,rhs=1,rhs2=1")],
        thorough=[prog(x) for x in ("steps=3,sums=1,sums2=1,sums3=1,vars=2,hi=1,op=0,op2=0,op3=0,rhs=1,rhs2=1,rhs3=1", "steps=2,sums=1,sums2=1,vars=2,hi=3,op=0,op2=0,rhs=2,rhs2=2", "threads=2,steps=3,sums=1,lit=1,vars=2,hi=2,op=0,rhs=2,doms2=1,lit2=1")])])

PROPS["P18"] = dict(
    bounds="one or two objectives (minimize or maximize) over 1-3 variables with 2-4 values, coefficients in [-2,2] and constants, alone or with a sum, distinct or domain; kept in the propagator or handed over to the solver; one or two steps and threads; exhaustive search, every pair of literal and integer assignments compared with the last model",
    assumptions=[WORLD, THEORY], sources=PSRC,
    units=[dict(PROG, quick=[prog(x) for x in (
        "mins=1,vars=2,co=2,hi=2,off=1", "mins=1,max=1,vars=2,co=2,hi=1,lo=-1", "mins=1,vars=2,sums=1,hi=1,op=0,rhs=1", "mins=2,vars=2,hi=1,off=1", "mins=1,vars=2,tmin=100,co=2,hi=2,off=1", "mins=1,vars=2,tmin=100,max=1,sums=1,hi=1,op=0,rhs=1",
        "mins=1,vars=2,hi=1,steps=2,off=1", "mins=1,vars=2,hi=1,steps=2,mins2=1,vars2=1,off2=1,max2=1", "mins=1,vars=2,hi=2,fork=1,dists=1,lit=1", "mins=1,vars=1,hi=1,threads=2,steps=2,off=1", "mins=1,vars=3,hi=2,disjs=1,dmin=1,dmax=1,lit=1", "mins=1,vars=2,hi=1,steps=2,tmin=100,off=1")],
        thorough=[prog(x) for x in ("mins=1,vars=2,sums=1,hi=1,off=1", "mins=1,sums=1,vars=2,tmin=100,co=1,hi=2", "mins=1,vars=3,co=2,hi=2,off=1", "steps=2,threads=2,mins=1,sums=1,vars=2,hi=1,conc=0,op=0", "mins=1,vars=2,hi=2,co=2,steps=2,mins2=1,co2=1,fork=1")])])

PROPS["P18"]["sources"] = ["constraints", "solver", "propagator", "parsing", "clingcon"]
PROPS["P18"]["units"].append(dict(tu="prop", entry="prepare", jobs=1, quick=[dict(n=2)], thorough=[dict(n=3)]))

PROPS["P19"] = dict(
    bounds="programs mixing two kinds of theory atoms over 2-3 variables with 2-4 values, under all configuration switches (refinement, introduction, chain propagation, splitting, sign, heuristic, checks, clause deletion, constraint sorting); arbitrary first decisions, exhaustive search; the accepted total assignments compared with all assignments satisfying the atoms",
    assumptions=[WORLD, THEORY], sources=PSRC,
    units=[dict(PROG, quick=[prog(x) for x in (
        "sums=1,dists=1,vars=3,hi=1,op=0,rhs=2", "sums=1,doms=1,vars=2,hi=1,op=0,rhs=1", "sums=1,nsums=1,vars=2,hi=1,op=0,rhs=1,conc=0", "sums=1,disjs=1,vars=2,hi=2,dmin=1,dmax=2,op=0,rhs=1", "sums=1,vars=3,hi=1,cfg=0,op=0,rhs=2,fork=1", "sums=1,vars=2,hi=3,cfg=8,op=0,rhs=3,fork=1", "sums=1,vars=2,hi=2,cfg=63,heu=1,op=0,rhs=2,fork=1",
        "sums=1,vars=2,hi=2,cfg=22,op=2,rhs=2,forget=1,fork=1", "sums=1,vars=2,hi=2,cfg=7,sort=0,op=3,rhs=2", "dists=1,vars=3,hi=2,cfg=15,forget=1,fork=1", "sums=1,vars=2,hi=2,state=0,op=0,rhs=2", "diffs=1,dists=1,vars=2,hi=2,op=0,rhs=1")],
        thorough=[prog(x) for x in ("sums=2,vars=2,hi=1,cfg=15,forget=1,rhs=1", "sums=1,doms=1,hi=2,vars=2", "sums=1,dists=1,vars=3,hi=2,op=0,rhs=2,conc=0", "doms=2,domval=1,vars=1,hi=1", "sums=1,nsums=1,nform=1,vars=3,hi=1", "sums=2,vars=3,hi=1,op=0,rhs=1,cfg=7,fork=1")])])

TERMS = "the calls parse() makes are recorded by a stand-in of AbstractConstraintBuilder; std::pow is modelled by repeated multiplication; clingo's theory term and symbol interfaces are stand-ins (harness/theory.hh)"
PROPS["P08"] = dict(
    bounds="ground terms with one or two operators: + and - on all pairs/triples of 32 bit integers, unary -, *, / and \\ with a full range operand against every other operand in [-3,3] (also swapped), ** with bases in [-3,33] and exponents in [-3,33]; "
           "in domains, difference guards, durations, function arguments, tuples, sums; linear expressions of up to 3 elements (products with constants on either side, nested sums, negations) with full range constants in objectives and distinct constraints, and constants at all limits in sums, with variables in [-2,2]",
    assumptions=[TERMS], sources=["parsing"],
    units=[dict(tu="terms", entry="ground", jobs=4, timeout=600,
                quick=[prog(x) for x in ("ctx=0,op1=0,full=3", "ctx=1,op1=0,full=3", "ctx=7,op1=1,full=3", "ctx=4,op1=1,full=3", "ctx=2,op1=1,edge=3", "ctx=2,op1=6,edge=1", "ctx=4,op1=3,full=1,small=3", "ctx=8,op1=2,full=1,small=3", "ctx=6,op1=0,edge=3", "ctx=6,op1=2,edge=3", "ctx=3,op1=4,full=1,small=3",
                                         "ctx=9,op1=4,full=2,small=2", "ctx=5,op1=6,full=1", "ctx=9,op1=5,full=0,small=33,smin=-3", "ctx=4,depth=2,op1=2,op2=0,full=5,shape=1,small=1", "ctx=4,depth=2,op1=0,op2=6,full=3", "ctx=3,depth=2,op1=6,op2=1,full=3")],
                thorough=[prog(x) for x in ("ctx=0,depth=2,full=7,maxop=1", "ctx=4,depth=2,full=7,maxop=1,shape=1", "ctx=8,op1=3,full=2,small=7", "ctx=8,op1=4,full=2,small=5", "ctx=4,depth=3,maxop=1,full=15", "ctx=4,depth=2,op1=3,op2=2,full=1,small=3", "ctx=9,depth=2,op1=5,op2=5,full=0,small=4")]),
           dict(tu="terms", entry="names", jobs=1),
           dict(tu="terms", entry="linear", jobs=4, timeout=600,
                quick=[prog(x) for x in ("where=2,n=1,full=1", "where=3,n=2,full=1,kinds=4", "where=1,n=1,vars=1,full=1,noerr=1", "where=0,n=1,edge=1,full=0,small=2,strict=1,op=0", "where=0,n=3,full=0,small=1,k0=0,k1=1,k2=2,op=0,noerr=1", "where=0,n=2,full=0,small=1,k0=5,k1=6,op=1,noerr=1,rk=0",
                                         "where=0,n=1,full=0,edge=1,op=2,k0=0,strict=1,small=1", "where=0,n=1,full=0,edge=3,op=5,k0=2,vars=1", "where=0,n=2,full=0,k0=3,k1=7,op=3,small=1,noerr=1,rk=4")],
                thorough=[prog(x) for x in ("where=2,n=2,full=1", "where=1,n=2,kinds=3,full=1", "where=0,n=2,kinds=3,full=0,small=2,rk=2,noerr=1", "where=0,n=1,full=0,edge=1,small=3,strict=1")])])

PROPS["P09"] = dict(
    bounds="lists of two elements with arbitrary 32 bit coefficients and of three elements with coefficients at all limits, over two variables and constants in any combination; linear and difference atoms with repeated variables; "
           "sums, distinct, disjoint and nonlinear constraints with arbitrary variables fixed before the constraint is added or in an earlier solving step, followed by an exhaustive search",
    assumptions=[WORLD, THEORY, TERMS], sources=PSRC,
    units=[dict(tu="terms", entry="simp", jobs=6, timeout=800, quick=[prog("n=2,full=3"), prog("n=3,full=0,edge=1")], thorough=[prog("n=3,full=1"), prog("n=3,full=0,edge=7,vars=1")]),
           dict(tu="terms", entry="linear", jobs=4, quick=[prog("where=0,n=3,full=0,small=1,kinds=1,vars=1,op=0,noerr=1"), prog("where=0,n=3,full=0,small=1,k0=6,k1=6,k2=3,op=1,noerr=1")]),
           dict(tu="sum", entry="search", jobs=8, timeout=800, quick=[dict(which=3, conc=1, vars=3, dom=2, fork=0, co=2, cfg=7, rhs=4, single=1), dict(which=3, conc=1, vars=3, dom=2, fork=0, co=1, cfg=3, rhs=4, single=3, lo=-1), dict(which=3, conc=1, vars=2, dom=2, fork=0, co=2, cfg=3, rhs=4, single=2, fact=1)],
                thorough=[dict(which=3, conc=1, vars=4, dom=2, fork=0, co=1, cfg=7, rhs=4, single=5), dict(which=3, conc=1, vars=3, dom=3, fork=1, co=2, cfg=7, rhs=4, single=2)]),
           dict(GLOB, quick=[dict(kind=0, vars=3, dom=2, single=5, fork=0, which=3, form=1, co=2), dict(kind=1, vars=3, dom=3, single=5, fork=0, which=3), dict(kind=2, vars=3, dom=2, fork=0, which=3, zvar=2, lo=-1, single=1), dict(kind=2, vars=3, dom=2, fork=0, which=3, zvar=2, lo=-1, single=6, co=1)]),
           dict(PROG, quick=[prog(x) for x in ("steps=2,sums=1,lit=0,doms2=1,lit2=1,vars=3,vars2=1,hi=1,op=0,rhs=1", "steps=2,diffs=1,doms2=1,lit2=1,vars=2,hi=2,op=0,rhs=1", "steps=2,dists=1,doms2=1,lit2=1,vars=3,hi=2", "steps=2,nsums=1,nform=1,doms2=1,lit2=1,vars=3,hi=1,op=0,rhs=1")])])

STREAM = "std::istringstream is replaced by a stand-in reading numbers like std::num_get with the classic locale (harness/shadow/sstream); sampled paths are replayed with the real streams"
ALLSRC = ["constraints", "solver", "propagator", "parsing", "clingcon"]
CAPI = dict(PROG, timeout=800)
PROPS["P20"] = dict(
    bounds="programs with sums, domains, objectives and difference constraints over up to 3 variables (also with function symbols as names) with 2-3 values; every subset of a list of variable and signature show statements, also added in a later step, no show statement and the empty one; "
           "two steps, two threads; all models of an exhaustive search; model extension, lookup, and iteration through the C interface and its callbacks",
    assumptions=[WORLD, THEORY], sources=ALLSRC,
    units=[dict(CAPI, quick=[prog(x) for x in ("capi=1,sums=1,vars=2,hi=1,op=0", "capi=1,shows=2,fun=1,hi=1", "capi=1,shows=1,vars=3,sums=1,hi=1,op=0,rhs=1", "capi=1,fun=1,hi=1,rhs=1,steps=2,shows2=2", "capi=1,mins=1,vars=2,hi=2,off=1", "capi=1,mins=1,vars=2,hi=1,steps=2,shows=1,off=1",
                                               "capi=1,threads=2,steps=2,sums=1,vars=2,hi=1,op=0,rhs=1,shows=1", "capi=1,doms=1,vars=1,hi=2,lit=3", "capi=1,sums=1,vars=2,hi=1,lo=-1,op=0,rhs=1,cfg=47,heu=1,fork=1", "capi=1,shows=2,fun=1,hi=1,rhs=1,steps=2,shows2=2")],
                thorough=[prog(x) for x in ("capi=1,shows=2,fun=1,hi=2,steps=2,shows2=2", "capi=1,shows=1,vars=3,sums=1,hi=2,op=0,rhs=2", "capi=1,mins=1,vars=2,hi=2,steps=3,shows2=1,off=1", "capi=1,threads=3,steps=2,sums=1,vars=2,hi=2,op=0,rhs=2,shows=2")])])

PROPS["P24"] = dict(
    bounds="programs with sums, domains, distinct, nonlinear constraints and objectives over 2-3 variables with 2-5 values in one to three steps and one or two threads, with and without translation; statistics reported after every step, compared with the calls received by the solver stand-in",
    assumptions=[WORLD, THEORY, "times are only required to add up"], sources=ALLSRC,
    units=[dict(CAPI, quick=[prog("capi=1,stats=1," + x) for x in ("steps=2,sums=1,vars=2,hi=1,op=0,rhs=1,sums2=1,op2=0,rhs2=1", "steps=2,sums=1,vars=2,hi=3,op=0,clauses=1,rhs=2,doms2=1,lit=1,lit2=1", "steps=2,sums=1,vars=2,hi=2,op=0,clauses=100,rhs=2,lonly=1", "steps=2,mins=1,vars=2,hi=1,off=1", "steps=2,mins=1,vars=2,hi=2,tmin=3,doms2=1,lit2=1",
                                                                  "threads=2,steps=2,mins=1,vars=2,hi=1", "threads=2,steps=2,sums=1,vars=2,hi=4,cfg=15,op=0,rhs=2", "steps=3,sums=1,vars=2,hi=2,op=0,rhs=1,cfg=15,fork=1", "steps=2,dists=1,vars=3,hi=2,dlimit=100,clauses=3", "steps=2,dists=1,vars=3,hi=2,lit=3,from2=1,sums2=1,op2=0,rhs2=1", "steps=2,nsums=1,vars=2,hi=1,op=0",
                                                                  "steps=2,sums=1,vars=2,hi=2,op=0,wcr=10,rhs=2", "steps=1,sums=1,vars=2,hi=2,op=-1,body=2,rhs=1", "steps=2,sums=1,vars=2,hi=4,cfg=15,op=0,rhs=2,order=1")],
                thorough=[prog("capi=1,stats=1," + x) for x in ("steps=3,sums=1,sums2=1,sums3=1,vars=2,hi=1,op=0,op2=0,op3=0,rhs=1,rhs2=1,rhs3=1", "threads=3,steps=3,sums=1,vars=2,hi=3,cfg=15,op=0,rhs=2", "steps=3,mins=1,vars=2,hi=2,mins2=1,off=1", "steps=2,sums=1,vars=3,hi=2,cfg=15,op=0,rhs=2,clauses=3,doms2=1,lit2=1")])])

PROPS["P23"] = dict(
    bounds="all 18 options: every text (any characters) of up to 5 characters (numbers with thread or total limit: up to 8-9), numbers of 9 to 11 digits with arbitrary first characters, valid values followed by any text of up to 5 characters after the comma; "
           "up to 3 settings in any order with clingcon_configure and through the callbacks registered for the command line, followed by validation; translate-pb: texts of up to 4 characters over digits, signs, dot and two other characters; registration of two theories after each other",
    assumptions=[STREAM, "clingo parses the flags of the command line itself"], sources=ALLSRC,
    units=[dict(tu="options", entry="heuristic", jobs=1, quick=[dict(n=2)], thorough=[dict(n=3)]),
           dict(tu="options", entry="configure", jobs=2, timeout=800,
                quick=[prog(x) for x in ("key=16,len=4", "key0=6,key=10,len=6", "key0=11,key=11,len=12", "key0=16,key=16,len=8", "key0=17,key=17,len=4", "key0=12,key=15,len=6", "mode=2,key0=0,key=5,len=4", "mode=2,key0=10,key=11,len=6",
                                         "mode=2,key0=6,key=6,len=6", "mode=1,key0=12,key=16,len0=9,len=11,from=2", "mode=1,key0=10,key=10,len0=9,len=11,from=2", "n=2,key0=9,key=11,len=3", "n=2,key0=12,key=16,len=2", "n=2,key=5,len=4")],
                thorough=[prog(x) for x in ("key=16,len=6", "key0=10,key=10,len=12", "key0=6,key=9,len=8", "mode=2,key0=6,key=11,len=7", "key0=17,key=17,len=5", "n=3,key0=6,key=7,len=3", "n=3,key0=10,key=11,len=3", "n=2,key0=6,key=16,len=3")]),
           dict(tu="options", entry="cmdline", jobs=2, timeout=800,
                quick=[prog(x) for x in ("n=1,len=3", "n=2,len=3,key0=6,key=7", "n=2,len=2,key0=12,key=16", "n=3,len=3,key0=6,key=6", "n=2,mode=2,len=2,key0=10,key=10", "n=2,len=2,key0=11,key=11,mode=2", "n=3,len=1,key0=13,key=15", "n=2,len=2,key0=0,key=6")],
                thorough=[prog(x) for x in ("n=2,mode=2,len=2,key0=6,key=11", "n=3,mode=2,len=2,key0=10,key=10", "n=3,len=3,key0=6,key=8", "n=2,len=4,key0=6,key=16")])])

PROPS["P21"] = dict(
    bounds="initialisation: every sequence of two requests (clause, weight constraint, objective term, literal, watch, propagate, commit) over 2 free variables with clauses of one literal, sequences of fixed kinds with up to 3 variables and 2 literals per clause or sum, weights in [-2,3], bounds in [-2,7], all three implication types, one variable possibly fixed; "
           "search: every sequence of two requests after a problem clause and one decision, clauses of up to 2 literals of all four clause types over all literals of the solver (true, false, unassigned, repeated), with and without a step literal; every total assignment",
    assumptions=[WORLD], sources=["constraints", "solver"],
    units=[dict(tu="creators", entry="init", jobs=8, timeout=800,
                quick=[prog(x) for x in ("ops=2,vars=1,width=1,fixed=0,quiet=1", "op0=0,op1=0,ops=2,vars=3,width=2", "op0=1,ops=1,vars=2,width=2,wmin=-2", "op0=1,op1=5,ops=2,vars=2,width=2", "op0=0,op1=5,op2=1,ops=3,vars=2,width=1", "op0=2,op1=2,ops=2,fixed=0,vars=1,quiet=1", "op0=3,op1=4,ops=2", "op0=0,op1=1,ops=2,vars=2,width=1", "op0=1,op1=1,ops=2,fixed=0,vars=1,width=1,quiet=1")],
                thorough=[prog(x) for x in ("ops=2,vars=2,width=1", "op0=0,op1=1,ops=2,vars=2,width=2", "op0=1,op1=1,ops=2,vars=2,width=1", "op0=0,op1=0,ops=2,vars=3,width=3,fixed=2", "op0=1,ops=1,vars=3,width=3")]),
           dict(tu="creators", entry="control", jobs=8, timeout=800,
                quick=[prog(x) for x in ("ops=2,vars=2,width=1,decisions=1", "op0=0,ops=1,vars=2,width=2,decisions=1", "ops=1,vars=2,width=2,decisions=1,step=1", "ops=2,op0=3,op1=0,vars=2,width=1,decisions=1")],
                thorough=[prog(x) for x in ("ops=2,op0=0,op1=0,vars=2,width=2,decisions=1,problem=0", "ops=1,op0=0,vars=3,width=2,decisions=2", "ops=3,vars=2,width=1,decisions=1,step=1")])])

PROPS["P25"] = dict(
    bounds="rules (all heads: truth constants of any sign and value, atoms, theory atoms, disjunctions), externals and minimize statements with up to 3 body literals of any kind and sign; theory atoms with all names of the library, similar ones and arbitrary names of 3, 4 and 8 letters, plain, external, with arguments or as symbols, all relations, with and without guard; "
           "up to 3 elements with 0-2 terms over up to 3 variables and up to 2 condition literals with nested terms; up to 2 statements from unpooling; shifting on and off; every truth value of literals and sums; every value of the variables of two instances",
    assumptions=["syntax trees are modelled with the node types and attributes of clingo's interface (harness/ast.hh); the grounder distinguishes the elements of a theory atom by their ground tuple"], sources=ALLSRC,
    units=[dict(tu="ast", entry="rewrite", jobs=4, timeout=800,
                quick=[prog(x) for x in ("n=1,elems=0,smax=3", "n=2,elems=0,smin=0,smax=0,bkinds=1,names=3", "n=1,elems=1,tsize=1,smin=0,smax=0,bkinds=0,names=0,rels=0,shift=1,nested=1", "n=1,elems=1,forms=3,conds=2,smin=0,smax=0,bkinds=0,names=1,rels=0,shift=1",
                                         "n=1,elems=2,forms=1,tsize=1,conds=1,vnames=2,smin=0,smax=0,bkinds=0,names=1,rels=0,shift=1", "n=1,elems=3,forms=0,tsize=1,conds=1,vnames=1,smin=0,smax=0,bkinds=0,names=1,rels=0,shift=1", "n=0,elems=1,smin=2,smax=2,names=8,shifts=0,bodies=0,heads=1,conds=0",
                                         "n=1,elems=1,names=7,smin=4,smax=5,bkinds=0,rels=0,shifts=0,forms=0", "n=3,elems=0,smin=0,smax=0,bkinds=1,names=1,rels=1", "n=1,elems=0,anyname=4,smin=0,smax=0,rels=1,bkinds=0", "n=1,elems=0,anyname=3,ext=1,smin=0,smax=2,rels=0,bkinds=0", "n=1,elems=0,anyname=8,smin=2,smax=2,rels=0,bkinds=0,shifts=0,bodies=0",
                                         "n=1,pools=2,elems=0,smax=2,names=2,rels=1,bkinds=1", "n=2,noguard=1,smax=0,names=2,bkinds=0,rels=1,elems=0")],
                thorough=[prog(x) for x in ("n=2,elems=0,smin=0,smax=3,bkinds=3,names=4,rels=2", "n=1,elems=2,forms=3,tsize=1,conds=2,vnames=2,smin=0,smax=0,bkinds=0,names=0,rels=0,shift=1", "n=1,elems=0,ext=1,smax=2,bkinds=0,rels=1", "n=0,elems=1,smin=2,smax=2,names=8,shifts=0,bodies=0,heads=1", "n=1,elems=1,names=7,smin=4,smax=5,bkinds=0,rels=0,shifts=0",
                                            "n=4,elems=0,smin=0,smax=0,bkinds=1,names=1,rels=1", "n=1,elems=2,pools=2,forms=0,tsize=1,conds=1,vnames=1,smin=0,smax=0,bkinds=0,names=0,rels=0,shift=1")])])

NOT_APPLICABLE = {
    "P26": "thread interleavings over C++ atomics and heap-backed containers are outside the reach of the symbolic executor (it executes one thread); callbacks of one thread are covered by P19",
}
