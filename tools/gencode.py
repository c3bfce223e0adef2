"""Straight-line C++ for a machine program: every operand is a literal (C19)."""
MEMOPS = {"store", "mstore"}
BMOPS = {"bstore", "mbstore"}
MASKOPS = {"eq", "ne", "lt", "le", "gt", "ge", "mlnot", "isnan", "isfinite", "signbit", "mconst", "mnot", "mand", "mland", "mor", "mlor", "mxor", "mne", "meq", "mcopy", "mfix", "mwide", "mcvt",
           "mset", "mwcopy", "mwconst", "mswaph", "bload", "mbload"}
OBS = {"nop", "opq", "olane", "omlane", "mred", "hsum", "hxor", "hmin", "hmul", "hand", "hor", "whmin", "whsum", "get"}


def dumps(i):
    op, d, a, b, k, imm = i
    if op in MEMOPS:
        return ["dmem<2 * V::size()>(mem);"]
    if op in BMOPS:
        return ["dbm<2 * V::size()>(bm);"]
    if op in MASKOPS:
        return ["dm(m%d,%d);" % ((d - 1) % 3 + 1, (d - 1) % 3 + 1)]
    if op == "mswapl":
        return ["dm(m%d,%d);" % (x, x) for x in sorted({(d - 1) % 3 + 1, (a - 1) % 3 + 1})]
    if op in OBS:
        return []
    r = {d}
    if op in ("pinc", "swapl"):
        r.add(a)
    if op == "divc":
        r.add(b)
    return ["dv(v%d,%d);" % (x, x) for x in sorted(r)]


def lit(i):
    op, d, a, b, k, imm = i
    m = lambda x: (x - 1) % 3 + 1
    return "  lit<O_%s>(v%d,v%d,v%d,m%d,m%d,m%d,m%d,mem,bm,%d,%d,%d,%d,%d); " % (op, d, a, b, m(d), m(a), m(b), k, d, a, b, k, imm)


def source(progs, ids):
    o = ['#include "machine.hpp"']
    for n, p in zip(ids, progs):
        o.append("template <class V> NOI void prog%d() {" % n)
        o.append("  using M = typename V::mask_type; prov<V>(\"straight-line program %d\"); MACHINE; sh_begin(V::size());" % n)
        for i in p:
            o.append(lit(i) + " ".join(dumps(i)) + " sh_ins_end();")
        o.append(lit(("nop", 1, 1, 1, 1, 0)) + " ".join(["dv(v%d,%d);" % (x, x) for x in (1, 2, 3, 4)] + ["dm(m%d,%d);" % (x, x) for x in (1, 2, 3)]) + " dmem<2 * V::size()>(mem); dbm<2 * V::size()>(bm); sh_ins_end();")
        o.append("  sh_end();\n}")
    o.append("template <class V> void all() { %s }" % " ".join("prog%d<V>();" % n for n in ids))
    o.append("template <class... Vs> void each(TL<Vs...>) { (all<Vs>(), ...); }")
    o.append("void run_all() { each(TL<ABIS>()); ev_begin(\"visible\", \"\"); ev_int(g_steps); ev_int(g_visible); ev_end(); }")
    return "\n".join(o) + "\n"
