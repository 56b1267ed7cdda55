"""Checks decided by the path-partitioned abstract interpretation (engine/)."""
import re

from common import Broken, Result

import absint
import analyse
import build_ir
import containers
import rules

ST = re.compile(r"^sdp_st_")
ASSUME = [
    "clang 18 produces the same program as the production compiler (host code, no CUDA)",
    "array-handle accessors return the attribute they are named after (property M01)",
    "distinct array arguments of one call are distinct handles or agree in their attributes",
    "pocketfft and the standard library behave as documented; their bodies are not analysed",
]

# Which deliberately broken function must be reported by which rule.
SELF = {
    "P01": {"sdp_st_bad_entry"},
    "R1": {"sdp_st_bad_entry", "sdp_st_bad_status_load"},
    "R2": {"sdp_st_bad_entry", "sdp_st_bad_type"},
    "R3": {"sdp_st_bad_entry", "sdp_st_bad_location"},
    "R4": {"sdp_st_bad_readonly"},
    "R5": {"sdp_st_bad_input"},
    "E1": {"sdp_st_bad_silent"},
    "E2": {"sdp_st_bad_cleared"},
    "E3d": {"sdp_st_bad_dropped"},
    "S9": {"sdp_st_bad_plan", "sdp_st_bad_plan_dangling", "sdp_st_bad_plan_overwrite"},
    "A1": {"sdp_st_bad_stride"},
    "RES": {"sdp_st_bad_leak", "sdp_st_bad_twice", "sdp_st_bad_after"},
}

# Exceptions, one line of reason each.
EXCEPT = {
    # The signature has no status argument, and creating a wrapper cannot fail
    # for an alias: the type and location come from an array that exists.
    ("E3d", "sdp_mem_create_alias", "sdp_mem_create_wrapper"),
}
# Documented to work on the storage in memory order, whatever the strides.
RAW = {"sdp_mem_clear_contents", "sdp_mem_clear_portion", "sdp_mem_copy_contents",
       "sdp_mem_copy_contents_async", "sdp_mem_random_fill", "sdp_mem_create_copy"}
EXCEPT |= {("A1", f, "*") for f in RAW}


def run(name, wanted, floors, explanation):
    prog = analyse.program()
    try:
        res = analyse.everything(prog)
    except absint.Incomplete as e:
        raise Broken(str(e))
    out = Result(name)
    out.explanation = explanation
    out.assumptions = list(ASSUME)
    hit = {r: set() for r in wanted}
    nfun, npath = set(), 0
    count = {r: 0 for r in wanted}
    for (fn, entry), (inst, found, nst) in sorted(res.items()):
        st = bool(ST.match(fn))
        if not st:
            nfun.add(fn)
            npath += nst
        for r in wanted:
            for k, loc in inst.get(r, {}).items():
                if st:
                    continue
                count[r] += 1
                out.inst("%s:%s:%s:%s" % (r, fn, entry, "/".join(map(str, k))), loc)
            for k, (msg, loc) in found.get(r, {}).items():
                if st:
                    hit[r].add(fn)
                    continue
                if (r, fn, k[0]) in EXCEPT or (r, fn, "*") in EXCEPT:
                    continue
                # parameters by position: a renamed parameter is the same finding
                pos = {a["name"]: "#%d" % n for n, a in enumerate(prog.funcs[fn].args)}
                key = "%s:%s:%s:%s" % (r, fn, entry, "/".join(pos.get(x, str(x)) for x in k))
                out.find(key.replace(" ", "_"), "%s: %s" % (fn, msg), loc)
    if "RES" in wanted:
        got = containers.run(out, absint.Program(build_ir.build("seq"), invariants=False))
        hit["RES"] |= got
        want = {"sdp_st_bad_array_kept", "sdp_st_bad_array_early", "sdp_st_bad_array_last"}
        if want - got:
            raise Broken("self-test: arrays of objects: %s not reported" % sorted(want - got))
    for r in wanted:
        miss = SELF.get(r, set()) - hit[r]
        if miss:
            raise Broken("self-test: rule %s does not report %s" % (r, ", ".join(sorted(miss))))
        if any(f.startswith("sdp_st_good") for f in hit[r]):
            raise Broken("self-test: rule %s reports a correct function" % r)
        if r in floors:
            out.floor("rule " + r, count[r], floors[r])
    out.floor("public functions", len(nfun), 120)
    out.info.update({"functions": len(nfun), "abstract_states": npath,
                     "instances_by_rule": count,
                     "self_test": {r: sorted(hit[r]) for r in wanted}})
    return out
