"""S08, objects kept in local arrays: what a loop makes, another one releases."""
import re

import absint
import build_ir
import races

NEW = re.compile(r"sdp_\w*create\w*$|sdp_mem_ref_inc$|sdp_mem_convert_precision$|_Zn[wa]m$|[mc]alloc$")
REL = re.compile(r"sdp_\w*(free|free_plan|ref_dec)$|_Zd[la]Pvm?$|free$")


class Body(object):
    def __init__(self, prog, f):
        self.f = f
        self.p = races.Poly(prog, f)

    def element(self, v):
        """(container, offset, counter) if the address is a varying element of a local array."""
        f, p = self.f, self.p(v)
        base, off, cnt = None, 0, None
        for m, c in p.items():
            if m == ():
                off = c % 8
            elif len(m) == 1 and c == 1 and m[0][0] in ("local", "new", "alloca") and base is None:
                base = m[0]
            elif len(m) == 1 and abs(c) == 8 and m[0][0] in ("k", "iv") and cnt is None:
                cnt = m[0][1]
            elif not any(a[0] in ("k", "iv", "phi", "local", "new", "alloca", "self")
                         for a in m):
                continue    # where a loop that counts down starts
            else:
                return None
        if base is None or cnt is None:
            return None
        if base[0] == "local":
            q = self.p(f.inst[base[1]].ops[0])
            a = [m[0][1] for m in q if len(m) == 1 and m[0][0] == "alloca"]
            if len(a) != 1:
                return None
            return ("vec", a[0], races.key(q)), off, cnt
        return ("arr", base[1]), off, cnt

    def range(self, phi):
        """(start, bound) of a counting loop; None where not known."""
        f = self.f
        i = f.inst[phi]
        start = [o for o, b in zip(i.ops, i.ex) if (b, i.block) not in f.back]
        lo = self.p(start[0]) if len(start) == 1 else None
        step = [o for o, b in zip(i.ops, i.ex) if (b, i.block) in f.back]
        if len(step) != 1 or races.add(self.p(step[0]), self.p(phi), -1) != races.const(1):
            return None, None
        hi = None
        for b in f.loops.get(i.block, ()):
            t = f.blocks[b][-1]
            if t.op == "br" and t.ops and isinstance(t.ops[0], int):
                c = f.inst[t.ops[0]]
                if c.op == "icmp" and any(s not in f.loops[i.block] for s in f.succ[b]):
                    ks = [k for k in (0, 1) if any(
                        a[0] in ("k", "iv") and a[1] == phi
                        for m in self.p(c.ops[k]) for a in m)]
                    if len(ks) == 1:
                        hi = (self.p(c.ops[1 - ks[0]]), c.ex[-2:], self.p(c.ops[ks[0]]))
        return lo, hi

    def differs(self, a, b):
        """Two ranges that certainly are not the same: a reason, or None."""
        (l1, h1), (l2, h2) = a, b

        def off(x, y):
            d = races.add(x, y, -1)
            return bool(d) and set(d) == {()}
        if l1 is not None and l2 is not None and off(l1, l2):
            return "starts at another element"
        if h1 and h2 and h1[1] == h2[1]:
            c1 = {k: v for k, v in h1[2].items() if k == ()}
            c2 = {k: v for k, v in h2[2].items() if k == ()}
            plain = all(a[0] in ("arg", "phi", "fn", "const") for h in (h1, h2)
                        for m in h[0] for a in m)
            if c1 == c2 and (off(h1[0], h2[0]) or
                             plain and races.key(h1[0]) != races.key(h2[0])):
                return "ends at another element"
        return None

    def must_pass(self, block, idx, heads):
        """Every path from there to a return goes through one of the blocks."""
        f, seen = self.f, set()
        work = list(f.succ[block])
        while work:
            b = work.pop()
            if b in seen or b in heads:
                continue
            seen.add(b)
            if f.blocks[b][-1].op == "ret":
                return False
            work.extend(f.succ[b])
        return True

    def each_turn(self, r, phi):
        """The release runs in every turn of its loop, or where the element is not null."""
        f = self.f
        head = f.inst[phi].block
        loop = f.loops.get(head, ())
        seen, work = set(), [s for s in f.succ[head] if s in loop]
        if r.block == head:
            return True
        while work:
            b = work.pop()
            if b in seen or b == r.block:
                continue
            seen.add(b)
            if b == head:
                return False
            t = f.blocks[b][-1]
            nxt = list(f.succ[b])
            if t.op == "br" and t.ops and isinstance(t.ops[0], int):
                c = f.inst[t.ops[0]]
                if c.op == "icmp" and "n" in [str(o)[:1] for o in c.ops] and r.block in nxt:
                    continue
            work.extend(s for s in nxt if s in loop or s == head)
        return True


def check(prog):
    """Yields (function, key, message, location, ok) for each container filled in a loop."""
    for name, f in sorted(prog.funcs.items()):
        if not f.blocks or "pocketfft" in name:
            continue
        body = Body(prog, f)
        made, freed = {}, {}
        for i in f.inst.values():
            if i.op == "store" and isinstance(i.ops[0], int):
                v = f.inst[i.ops[0]]
                if v.op in ("call", "invoke") and isinstance(v.ex, str) and NEW.match(v.ex):
                    e = body.element(i.ops[1])
                    if e:
                        made.setdefault(e[:2], []).append((i, v, e[2]))
            elif i.op in ("call", "invoke") and isinstance(i.ex, str) and REL.match(i.ex) and \
                    i.ops and isinstance(i.ops[0], int) and f.inst[i.ops[0]].op == "load":
                e = body.element(f.inst[i.ops[0]].ops[0])
                if e:
                    freed.setdefault(e[:2], []).append((i, e[2]))
        for n, (e, xs) in enumerate(sorted(made.items(), key=lambda x: x[1][0][0].id)):
            for st, new, phi in xs:
                w = "%s:%s" % f.where(new.loc)[:2]
                rel = freed.get(e, [])
                what = "the objects that %s makes for a local array" % new.ex
                k = (new.ex, "element%d" % n)
                if not rel:
                    yield name, k, "%s are not released" % what, w, False
                    continue
                heads = {f.inst[p].block for _, p in rel}
                if not body.must_pass(st.block, st.idx, heads):
                    yield (name, k, "%s are not released on every path" % what, w, False)
                    continue
                why = [body.differs(body.range(phi), body.range(p)) for _, p in rel]
                turn = [body.each_turn(r, p) for r, p in rel]
                if all(why) or not any(t and not y for t, y in zip(turn, why)):
                    yield (name, k, "%s are not all released: the loop %s" % (
                        what, next((y for y in why if y), "leaves some out")), w, False)
                    continue
                if len([1 for t, y in zip(turn, why) if t and not y]) > 1 and \
                        not exclusive(f, [r for r, _ in rel]):
                    yield name, k, "%s are released twice" % what, w, False
                    continue
                yield name, k, "", w, True


def exclusive(f, rels):
    """No release can follow another one."""
    for r in rels:
        seen, work = set(), list(f.succ[r.block])
        loops = [h for h, b in f.loops.items() if r.block in b]
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            if any(x is not r and x.block == b and not any(
                    b in f.loops[h] for h in loops) for x in rels):
                return False
            work.extend(f.succ[b])
    return True


def run(res, prog):
    hit = set()
    for name, k, msg, w, ok in check(prog):
        st = name.startswith("sdp_st_")
        if not st:
            res.inst("RES:%s:array:%s" % (name, "/".join(k)), w)
        if not ok:
            if st:
                hit.add(name)
            else:
                res.find("RES:%s:array:%s" % (name, "/".join(k)), "%s: %s" % (name, msg), w)
    return hit


if __name__ == "__main__":
    import sys
    for x in check(absint.Program(build_ir.build("seq"), invariants=False)):
        print(x)
