"""jf-utils: conversions, sizes, Reed-Solomon code, products, serialisation helpers."""
from core import *
from engine import *
from q import *

U = "jf_utils"


def is_bits(t, g=None):
    return t.op == "kconst" and t.args[0].endswith("MODULUS_BIT_SIZE") and (g is None or (t.args[1] and t.args[1][0] == g))


def nm(t):
    return t.args[0].split("::")[-1] if t.op == "call" else ""


def case_list(q, n):
    """alternatives of the value returned at an exit"""
    c = q.cases(n, n.exit)
    return [] if c is None else [(cs, q.norm(v)) for cs, v in c]


def order_of(name):
    return "le" if "_le" in name else "be" if "_be" in name else None


DROPS = {"pop", "retain", "dedup", "drain", "remove", "swap_remove", "skip_while", "take_while", "split_off"}


def small_fields(rep, an, q, w):
    """every successful return requires a modulus of more than 64 bits"""
    refuse = set()
    for g in an.guards(an.exits()):
        p = q.accept(g)
        if g.must and p[0] in NEG:
            t = q.nbin(*p)
            at = q.iatoms(t)
            if at and all(is_bits(a) for a in at):
                refuse |= {b for b in range(2, 65) if ieval(q, t, {a: b for a in at}) == 0}
    miss = [b for b in range(2, 65) if b not in refuse]
    rep.verdict(not miss, "small-field", w, f"a field of {miss[-1] if miss else ''} bits cannot hold the length header but is accepted")
    large = set()
    for g in an.guards(an.exits()):
        p = q.accept(g)
        if g.must and p[0] in NEG:
            t = q.nbin(*p)
            at = q.iatoms(t)
            if at and all(is_bits(a) for a in at):
                large |= {b for b in range(65, 800) if ieval(q, t, {a: b for a in at}) == 0}
    rep.verdict(not large, "large-field", w, f"a field of {min(large, default='')} bits is refused")


def length_assertion(rep, an, q, w, B, cls):
    """an assertion about the number of packed elements must be true"""
    bad = None

    def val(a, b, d, n):
        if a.op == "len" and a.args[0].op in ("chunks", "chunksx") and q.norm(a.args[0].args[0]) is B:
            k = whole(a.args[0].args[1], b, d, n)
            return None if not k else -(-n // k) if a.args[0].op == "chunks" else n // k
        return {"b": b, "d": d, "n": n}.get(cls(a))

    def whole(t, b, d, n):
        t = q.norm(t)
        env = {a: val(a, b, d, n) for a in q.iatoms(t)}
        return None if None in env.values() else ieval(q, t, env)
    for g in an.guards(an.exits()):
        p = q.accept(g)
        if p[0] not in NEG or not any(a.op == "len" and a.args[0].op in ("chunks", "chunksx") for a in q.iatoms(q.nbin(*p))):
            continue
        for b, d, n in itertools.product((65, 200, 254, 255, 381), (1, 2), (1, 2, 7, 8, 9, 31, 32, 62, 63, 94, 1000)):
            if bad is None and whole(q.nbin(*p), b, d, n) == 0:
                bad = f"{n} bytes, {b} bits, degree {d}"
    rep.verdict(bad is None, "encode-assertion", w, f"packing is refused (panics) for {bad}")


def whole_loops(rep, an, q, w):
    """no loop that builds up a value is left early because of the data it walks over"""
    bad = []
    for h in an.loops():
        if not q.accumulating(h):
            continue
        for c, n in q.early_exits(h):
            c = q.norm(c)
            if not all(a.op in ("len", "kconst", "arg") or nm(a) == "extension_degree" for a in q.iatoms(c)) or c.op not in ("bin", "un"):
                if an.depends(c, lambda t: t.op in ("elem", "optelem")):
                    bad.append(c)
    rep.verdict(not bad, "whole-loop", w, "a loop over the data is left early depending on the data: " + ", ".join(pp(c, 4) for c in bad[:2]))


def u64_header(rep, q, t, elems, fn):
    """facets of the length header read back by the decoder; t is the header value"""
    w = fn.path
    t = q.norm(t)
    if nm(t) not in ("from_le_bytes", "from_be_bytes"):
        rep.unk("header-decode", w, "length header is not read through from_*_bytes")
        return
    o1 = order_of(nm(t))
    src = t.args[2]
    while src.op in ("conv", "tryconv"):
        src = src.args[0]
    if src.op == "slice":
        ok = src.args[1] is const(0) and src.args[2] is const(8)
        rep.verdict(ok if is_int_const(src.args[1]) and is_int_const(src.args[2]) else None, "header-width", w, f"length header must be the low 8 bytes, found {pp(src, 3)}")
        src = src.args[0]
    if nm(src) in ("to_bytes_le", "to_bytes_be"):
        rep.verdict(order_of(nm(src)) == o1 == "le", "header-order", w, f"length header written little-endian is read with {nm(src)}/{nm(t)}")
    base = [x for x in find(q, src, lambda x: nm(x) in ("last", "nth", "max", "min", "fold", "sum") and find(q, x, lambda y: nm(y) == "to_base_prime_field_elements"))]
    base += [x for x in find(q, src, lambda x: x.op == "index" and nm(x.args[0]) == "to_base_prime_field_elements" and x.args[1] is not const(0))]
    rep.verdict(False if [x for x in base if nm(x) != "nth" or x.args[-1] is not const(0)] else True, "header-coordinate", w, "length header must be read from the first coordinate")
    firsts = [x for x in find(q, src, lambda x: x.op == "index" and x.args[0] is elems)]
    if firsts:
        rep.verdict(all(x.args[1] is const(0) for x in firsts), "header-position", w, "length header must be read from the first element")
    else:
        rep.unk("header-position", w)


@check("U01", [U], """Value-flow summary of the byte packing and unpacking functions (helpers inlined, loops and iterator chains put in a common sequence form).
Decided on the summary: length header value, width and byte order on both sides; chunk size strictly below the characteristic for every modulus bit length
65..800; every input byte is in a chunk; zero filling up to the extension degree; the decoder skips exactly the header, takes the same number of bytes per
prime-field element as the encoder packs, and cuts the result at min(header, capacity); empty maps to empty.""", floor=2)
def u01(rep, prog):
    enc = rep.anchor(prog, U, "bytes_to_field_elements")
    dec = rep.anchor(prog, U, "bytes_from_field_elements")
    if enc is None or dec is None:
        return
    pb_enc = None
    # ---------------- encoder
    an, q = rep.analyse(prog, enc)
    w = enc.path
    B = T("arg", 1, enc.locals[1][1])
    lenB = q.nlen(B)

    def cls(a):
        if is_bits(a):
            return "b"
        if nm(a) == "extension_degree":
            return "d"
        if a is lenB:
            return "n"
        return None
    small_fields(rep, an, q, w)
    cases = [c for e in an.exits() for c in case_list(q, e)]
    at0 = lambda a: {"n": 0}.get(cls(a))
    empties = [v for cs, v in cases if consistent(q, cs, at0)]
    rep.verdict(all(q.seq(v) == [] for v in empties) if empties and not any(p[0] == "?" for v in empties for p in q.seq(v)) else None,
                "encode-empty", w, "empty input must give empty output")
    length_assertion(rep, an, q, w, B, cls)
    at9 = lambda a: {"n": 9}.get(cls(a))
    full = [v for cs, v in cases if consistent(q, cs, at9)]
    for v in full:
        parts = q.seq(v)
        whole_loops(rep, an, q, w)
        cuts = sorted({nm(t) for t in an.subterms(v) if nm(t) in DROPS and v.op == "phi"})
        rep.verdict(not cuts, "encode-keeps", w, f"packed elements are removed depending on their content ({', '.join(cuts)})")
        if not parts:
            rep.fail("encode-content", w, "non-empty input gives empty output")
            continue
        if parts[0][0] != "one":
            v0 = None
            if parts[0][0] in ("each", "loop", "eachseq") and not any(p[0] == "?" for p in parts):
                v0 = False
            rep.verdict(v0, "header-encode", w, "the first output element must encode the byte length")
            rest = parts
        else:
            h = parts[0][1]
            hv = h.args[0] if h.op == "conv" else h.args[2] if nm(h) == "from" else None
            if hv is None:
                dep = an.depends(h, lambda x: x is lenB or x.op == "len")
                rep.verdict(None if dep else False, "header-encode", w, f"the first output element {pp(h, 4)} must encode the byte length")
            else:
                r, why = grid(q, hv, lambda e: e["n"], cls, {"n": [1, 2, 7, 8, 31, 32, 255, 256, 65535, 65536, 2**32 - 1, 2**32, 2**32 + 5, 2**40], "b": [255], "d": [1]})
                rep.verdict(r, "header-encode", w, "length header: " + why)
            rest = parts[1:]
        if len(rest) != 1 or rest[0][0] not in ("each", "loop"):
            rep.unk("encode-chunks", w, str([p[0] for p in rest]))
            continue
        dom = rest[0][1]
        body = rest[0][2] if rest[0][0] == "each" else (rest[0][2][0][1] if len(rest[0][2]) == 1 and rest[0][2][0][0] == "one" else None)
        if dom is None or body is None:
            rep.unk("encode-chunks", w)
            continue
        if dom.op not in ("chunks", "chunksx", "rchunks"):
            part = dom.op in ("filter", "takewhile", "skipwhile", "skip", "take", "stepby", "rev") and dom.args[0].op in ("chunks", "chunksx", "rchunks")
            rep.verdict(False if part else None, "encode-chunks", w, f"not all chunks are packed: {pp(dom, 3)}")
            continue
        rep.verdict(dom.op == "chunks", "encode-chunks", w, f"bytes are split with {dom.op}: the trailing chunk is lost or misplaced")
        base = dom.args[0]
        rep.verdict(True if base is B else (False if base.op in ("slice", "skip", "take", "rev") else None), "encode-all-bytes", w, f"chunks are taken from {pp(base, 3)}, not from the whole input")
        FB = dom.args[1]
        mk = [x for x in find(q, body, lambda x: nm(x) == "from_base_prime_field_elems")]
        if len(mk) != 1:
            rep.unk("encode-extension", w)
            continue
        inner = q.seq(mk[0].args[2])
        if not inner or inner[0][0] not in ("each", "loop") or inner[0][1] is None or inner[0][1].op not in ("chunks", "chunksx", "rchunks"):
            rep.unk("encode-inner", w, str([p[0] for p in inner]))
            continue
        idom = inner[0][1]
        rep.verdict(idom.op == "chunks", "encode-inner", w, f"a field element's bytes are split with {idom.op}")
        ib = idom.args[0]
        rep.verdict(True if ib.op == "elem" and ib.args[0] is dom else (False if ib.op in ("slice", "skip", "take", "rev") else None), "encode-inner-bytes", w, f"prime-field chunks come from {pp(ib, 3)}")
        PB = idom.args[1]
        pb_enc = PB
        r, why = grid(q, PB, lambda e: (lambda v: 1 <= v <= (e["b"] - 1) // 8), cls, {"b": range(65, 801), "d": [1, 2]})
        rep.verdict(r, "chunk-below-characteristic", w, "a chunk must stay below the characteristic: " + why)
        ibody = inner[0][2] if inner[0][0] == "each" else (inner[0][2][0][1] if len(inner[0][2]) == 1 and inner[0][2][0][0] == "one" else None)
        if ibody is not None and nm(ibody) in ("from_le_bytes_mod_order", "from_be_bytes_mod_order"):
            rep.verdict(nm(ibody) == "from_le_bytes_mod_order", "encode-order", w, "chunks must be packed little-endian (the decoder drops the high byte)")
            x = ibody.args[2]
            rep.verdict(True if x.op == "elem" and x.args[0] is idom else (False if x.op in ("slice", "rev") else None), "encode-chunk-value", w, f"packed value is {pp(x, 3)}, not the chunk")
        else:
            rep.unk("encode-order", w)
        # FB = PB * d
        r, why = grid(q, FB, lambda e: e["p"] * e["d"], lambda a: cls(a), {"b": range(65, 330), "d": range(1, 13)}, ) if False else (None, "")
        bad = None
        for b in range(65, 401):
            for d in (1, 2, 3, 6, 12):
                envf = lambda t: {a: {"b": b, "d": d}.get(cls(a)) for a in q.iatoms(t)}
                e1, e2 = envf(FB), envf(PB)
                if None in e1.values() or None in e2.values():
                    bad = "?"
                    break
                x, y = ieval(q, FB, e1), ieval(q, PB, e2)
                if x is None or y is None:
                    bad = "?"
                    break
                if x != y * d:
                    bad = f"bits={b} degree={d}: {x} bytes per field element but {y} per prime-field element"
                    break
            if bad:
                break
        rep.verdict(None if bad == "?" else bad is None, "encode-element-bytes", w, f"bytes per field element must be bytes per prime-field element times the extension degree: {bad}")
        # padding
        if len(inner) == 1:
            rep.fail("encode-fill", w, "a short last chunk is not filled with zero elements up to the extension degree")
        elif len(inner) == 2 and inner[1][0] == "rep":
            z, cnt = inner[1][1], inner[1][2]
            rep.verdict(True if nm(z) == "zero" or (z.op == "kconst" and z.args[0].endswith("ZERO")) or z.op == "conv" and z.args[0] is const(0) else
                        (False if nm(z) == "one" or (z.op == "kconst" and z.args[0].endswith("ONE")) or z.op == "conv" and isinstance(z.args[0], Term) and is_int_const(z.args[0]) else None),
                        "encode-fill-zero", w, f"fill element is {pp(z, 3)}")
            L = q.nlen(ib)
            res, why = True, ""
            for d in range(1, 7):
                for p in range(8, 12):
                    for n in range(1, p * d + 1):
                        env = {PB: p, L: n}
                        for a in q.iatoms(cnt):
                            if nm(a) == "extension_degree":
                                env[a] = d
                        v = ieval(q, q.norm(cnt), env)
                        if v is None:
                            res = None
                            break
                        if v != d - -(-n // p):
                            res, why = False, f"degree {d}, {p} bytes per element, chunk of {n} bytes: {v} zero elements, needed {d - -(-n // p)}"
                            break
                    if res is not True:
                        break
                if res is not True:
                    break
            rep.verdict(res, "encode-fill-count", w, "zero filling: " + why)
        elif len(inner) == 2 and inner[1][0] == "padto":
            z, cnt = inner[1][2], inner[1][1]
            rep.verdict(nm(cnt) == "extension_degree" or None, "encode-fill-count", w, pp(cnt, 3))
        else:
            rep.unk("encode-fill", w)
    # ---------------- decoder
    an, q = rep.analyse(prog, dec)
    w = dec.path
    E = T("arg", 1, dec.locals[1][1])
    lenE = q.nlen(E)
    cases = [c for e in an.exits() for c in case_list(q, e)]

    def cls2(a):
        if is_bits(a):
            return "b"
        if nm(a) == "extension_degree":
            return "d"
        if a is lenE:
            return "n"
        if nm(a) in ("from_le_bytes", "from_be_bytes"):
            return "h"
        return None
    at0 = lambda a: {"n": 0}.get(cls2(a))
    empties = [v for cs, v in cases if consistent(q, cs, at0)]
    rep.verdict(all(q.seq(v) == [] for v in empties) if empties and not any(p[0] == "?" for v in empties for p in q.seq(v)) else None,
                "decode-empty", w, "empty input must give empty output")
    if cases and not empties:
        rep.fail("decode-empty", w, "empty input is never accepted")
    for v in empties:
        if find(q, v, lambda t: t.op == "index" and q.norm(t.args[0]) is E and t.args[1] is const(0)):
            rep.fail("decode-empty", w, "the first of no elements is read")
    at9 = lambda a: {"n": 9}.get(cls2(a))
    for v in [v for cs, v in cases if consistent(q, cs, at9)]:
        if v.op in ("trunc",):
            S, cut = v.args[0], v.args[1]
            hard = False
        elif v.op == "slice" and v.args[1] is const(0):
            S, cut = v.args[0], v.args[2]
            hard = True
        elif v.op == "take":
            S, cut = v.args[0], v.args[1]
            hard = False
        else:
            ps = q.seq(v)
            rep.verdict(False if all(p[0] in ("loop", "each", "eachseq") for p in ps) else None, "decode-cut", w, "the decoded bytes are not cut at the encoded length")
            S, cut = v, None
        for _, S2 in expand(q, None, (), S):
            if S2 is not S and S2.op in ("trunc", "slice", "take"):
                c2 = S2.args[2] if S2.op == "slice" else S2.args[1]
                if is_int_const(c2):
                    rep.fail("decode-cut", w, f"the decoded bytes are also cut at the fixed length {pp(c2)}")
        if cut is not None:
            bad = None
            for b in (65, 200, 254, 255, 381):
                for d in (1, 2):
                    for n in (1, 2, 5):
                        for h in (0, 1, 30, 31, 32, 40, 61, 62, 63, 1000, 2**40, 2**64 - 1):
                            env = {}
                            for a in q.iatoms(cut):
                                r = cls2(a)
                                if r is None:
                                    bad = "?"
                                else:
                                    env[a] = {"b": b, "d": d, "n": n, "h": h}[r]
                            if bad == "?":
                                break
                            x = ieval(q, q.norm(cut), env)
                            cap = (b - 1) // 8 * d * (n - 1)
                            if x is None:
                                bad = "?"
                                break
                            if min(x, cap) != min(h, cap) or (hard and x > cap):
                                bad = f"bits={b} degree={d} elements={n} header={h}: cut at {x}"
                                break
                        if bad:
                            break
                    if bad:
                        break
                if bad:
                    break
            rep.verdict(None if bad == "?" else bad is None, "decode-cut", w, f"result must be cut at the encoded length: {bad}")
            refused = None
            for g in an.guards(an.exits()):
                p = q.accept(g)
                if p[0] not in NEG:
                    continue
                at = {a: cls2(a) for a in q.iatoms(q.nbin(*p))}
                if "h" not in at.values() or None in at.values():
                    continue
                for h, n in itertools.product((0, 1, 31, 62, 1000, 2**40, 2**64 - 1), (1, 2, 5)):
                    if ieval(q, q.nbin(*p), {a: {"b": 255, "d": 1, "n": n, "h": h}[r] for a, r in at.items()}) == 0:
                        refused = f"header {h} with {n - 1} data elements"
            # an assertion about the total number of decoded bytes must be true
            for g in an.guards(an.exits()):
                p = q.accept(g)
                if p[0] != "Eq":
                    continue
                for x, y in (p[1:], p[:0:-1]):
                    at = {a: cls2(a) for a in q.iatoms(y)}
                    if not (x.op == "len" and x.args[0].op == "phi") or None in at.values() or not at:
                        continue
                    for b, d, n in itertools.product((65, 200, 254, 255, 381), (1, 2), (1, 2, 5)):
                        v2 = ieval(q, q.norm(y), {a: {"b": b, "d": d, "n": n, "h": 1000}[r] for a, r in at.items()})
                        if v2 is not None and v2 != (b - 1) // 8 * d * (n - 1):
                            refused = f"{n - 1} data elements: {v2} bytes are expected"
            rep.verdict(refused is None, "decode-oversized", w, f"decoding is refused (panics) for {refused}")
            for h in [a for a in q.iatoms(cut) if cls2(a) == "h"]:
                u64_header(rep, q, h, E, dec)
        parts = q.seq(S)
        whole_loops(rep, an, q, w)
        cuts = sorted({nm(t) for t in q.an.subterms(S) if nm(t) in DROPS and S.op == "phi"})
        rep.verdict(not cuts, "decode-keeps", w, f"decoded bytes are removed depending on their content ({', '.join(cuts)})")
        if len(parts) != 1 or parts[0][0] not in ("loop", "eachseq"):
            rep.verdict(None if parts else False, "decode-elements", w, f"parts of the result: {[p[0] for p in parts]}")
            continue
        dom = parts[0][1]
        ok = None
        if dom is not None:
            if dom.op == "slice" and dom.args[0] is E and is_int_const(dom.args[1]) and dom.args[2].op == "end":
                ok = dom.args[1].args[0] == 1
            elif dom.op == "skip" and dom.args[0] is E and is_int_const(dom.args[1]):
                ok = dom.args[1].args[0] == 1
            elif dom is E:
                ok = False
            elif dom.op in ("rev",):
                ok = False
            elif dom.op == "slice" and dom.args[0] is E and dom.args[2].op == "fromend":
                ok = False
            elif dom.op == "ridx" and is_int_const(dom.args[0]) and dom.args[1] is lenE:
                ok = dom.args[0].args[0] == 1 and not dom.args[3]
        rep.verdict(ok, "decode-elements", w, f"the decoder must walk all elements after the header, walks {pp(dom, 3)}")
        inner = parts[0][2]
        if len(inner) == 1 and inner[0][0] in ("loop", "eachseq"):
            idom = inner[0][1]
            rep.verdict(True if idom is not None and nm(idom) == "to_base_prime_field_elements" else (False if idom is not None and idom.op in ("take", "skip", "rev") else None), "decode-extension", w, pp(idom, 3))
            leaf = inner[0][2]
        else:
            leaf = inner
        if len(leaf) != 1 or leaf[0][0] != "all":
            if len(leaf) == 1 and leaf[0][0] in ("trunc",):
                pass
            rep.unk("decode-bytes", w, str(leaf)[:120])
            continue
        y = leaf[0][1]
        if y.op in ("slice", "take"):
            src = y.args[0]
            lo, hi = (y.args[1], y.args[2]) if y.op == "slice" else (const(0), y.args[1])
            if nm(src) in ("to_bytes_le", "to_bytes_be"):
                rep.verdict(nm(src) == "to_bytes_le", "decode-order", w, "bytes must be unpacked little-endian")
                rep.verdict(lo is const(0) if is_int_const(lo) else None, "decode-low-bytes", w, f"unpacked bytes start at {pp(lo)}")
                if hi.op == "fromend":
                    rep.fail("decode-width", w, f"a fixed number of top bytes is dropped ({pp(hi)}): differs from the packed size when the top limb is not full")
                elif hi.op == "end":
                    rep.fail("decode-width", w, "the top byte is not dropped")
                else:
                    r, why = grid(q, hi, lambda e: (e["b"] - 1) // 8, cls2, {"b": range(65, 801), "d": [1, 3], "n": [3], "h": [5]})
                    rep.verdict(r, "decode-width", w, "bytes taken per prime-field element must equal the packed chunk size: " + why)
            else:
                rep.unk("decode-bytes", w, pp(src, 3))
        elif nm(y) in ("to_bytes_le", "to_bytes_be"):
            rep.fail("decode-width", w, "the top byte of each prime-field element is not dropped")
        else:
            rep.unk("decode-bytes", w, pp(y, 3))
    # encoder and decoder agree on the chunk size the decoder asserts
    if pb_enc is not None:
        for g in an.guards(an.exits()):
            p = q.accept(g)
            if p[0] == "Eq":
                for a, b in ((p[1], p[2]), (p[2], p[1])):
                    if a.op == "len" or (a.op == "bin" and find(q, a, lambda x: nm(x) == "to_bytes_le")):
                        r, why = grid(q, b, lambda e: (e["b"] - 1) // 8, lambda t: "b" if is_bits(t) else None, {"b": range(65, 801)})
                        if r is not None:
                            rep.verdict(r, "decode-assert-width", w, "asserted chunk size: " + why)


def fed(q, t, A, seen=()):
    """has a digest state absorbed the whole of A on every path (None: not recognised)"""
    an = q.an
    t = q.norm(t)
    if t.op == "out":
        t = t.args[0]
    if nm(t) in ("update", "chain", "chain_update", "digest", "input"):
        x = q.norm(t.args[-1])
        while x.op in ("conv", "cast") or (x.op == "slice" and x.args[1] is const(0) and x.args[2].op == "end"):
            x = x.args[0]
        if x is A:
            return True
        if nm(t) == "digest":
            return False if x.op == "slice" or not an.depends(x, lambda y: y is A) else None
        r = fed(q, t.args[2], A, seen)
        return r if r or x.op in ("slice", "elem") or not an.depends(x, lambda y: y is A) else None
    if t.op == "phi":
        if t in seen:
            return False
        lp = q.loop_phi(t)
        if lp is not None:
            if all(fed(q, x, A, seen + (t,)) for x in lp[1]):
                return True
            dom = q.loop_domain(lp[0])
            if dom is None:
                return None
            if dom is A or dom.op == "chunks" and q.norm(dom.args[0]) is A:
                ok = True
                for x in lp[2]:
                    x = q.norm(x)
                    x = x.args[0] if x.op == "out" else x
                    y = q.norm(x.args[-1]) if nm(x) in ("update", "chain_update") else None
                    while y is not None and y.op == "agg" and y.args[0] == "array" and len(y.args) == 4:
                        y = q.norm(y.args[3])
                    ok = ok and y is not None and y.op == "elem" and y.args[0] is dom and q.norm(x.args[2]) is t
                return ok or None
            return False if dom.op in ("chunksx", "chunks_exact", "slice", "take", "skip", "filter", "takewhile", "skipwhile", "step_by") else None
        rs = [fed(q, x, A, seen + (t,)) for x in an.phi_inputs(t)]
        return False if False in rs else None if None in rs or not rs else True
    if t.op == "call" and len(t.args) == 2:
        return False
    if t.op == "call" and len(t.args) == 3:
        return fed(q, t.args[2], A, seen)
    return False if not an.depends(t, lambda y: y is A) else None


# ------------------------------------------------------------------------ U02
FROM_BYTES = ("from_le_bytes_mod_order", "from_be_bytes_mod_order")
TO_BYTES = ("to_bytes_le", "to_bytes_be")


def same_value_conversion(rep, q, v, arg, w, cut=None):
    """v must be T::from_*_bytes(arg.to_bytes_*()), same byte order; cut(slice term) decides a prefix"""
    v = q.norm(v)
    if nm(v) not in FROM_BYTES:
        rep.unk("conversion", w, pp(v, 3))
        return None
    x = v.args[2]
    sl = None
    if x.op == "slice":
        sl, x = x, x.args[0]
    if nm(x) not in TO_BYTES:
        rep.verdict(False if x.op == "store" else None, "conversion", w, f"the bytes of the element are altered before the conversion: {pp(x, 3)}")
        return None
    src = x.args[2]
    if nm(src) in ("into_bigint", "into_repr", "into"):
        src = src.args[2]
    elif src.op == "conv":
        src = src.args[0]
    rep.verdict(order_of(nm(v)) == order_of(nm(x)), "byte-order", w, f"{nm(x)} is read back with {nm(v)}")
    rep.verdict(True if src is arg else (False if not q.an.depends(src, lambda t: t is arg) or src.op in ("bin", "un") else None), "source", w, f"converts {pp(src, 4)} instead of the argument")
    if cut is None:
        rep.verdict(sl is None or sl.args[2].op == "end" and sl.args[1] is const(0), "all-bytes", w, f"only part of the bytes is converted: {pp(sl, 3)}")
    elif sl is None:
        rep.fail("prefix", w, "the element is not truncated")
    else:
        cut(sl, order_of(nm(x)))
    return x


@check("U02", [U], """Value-flow summaries of the field-to-field conversion helpers and of hash-to-field. Decided: bytes are written and read in the same byte order and all
of them are used; the masked conversion keeps only so many low bytes that the target modulus cannot be reached, for every target bit length 9..800 (a 1-byte target
keeps nothing); switching fields is guarded on every path by a comparison of the whole input representation with the result's representation; hash-to-field consumes
the whole input and takes at least ceil(bits/8)+16 digest bytes.""", floor=5)
def u02(rep, prog):
    for name in ("fr_to_fq", "fq_to_fr"):
        fn = rep.anchor(prog, U, name)
        if fn is None:
            continue
        an, q = rep.analyse(prog, fn)
        A = T("arg", 1, fn.locals[1][1])
        for e in an.exits():
            for _, v in case_list(q, e):
                same_value_conversion(rep, q, v, A, fn.path)
    fn = rep.anchor(prog, U, "fq_to_fr_with_mask")
    if fn is not None:
        an, q = rep.analyse(prog, fn)
        w = fn.path
        A = T("arg", 1, fn.locals[1][1])
        gF, gT = fn.generics[0], fn.generics[1]

        def cut(sl, order):
            lo, hi = sl.args[1], sl.args[2]
            if order == "le":
                rep.verdict(lo is const(0) if is_int_const(lo) else None, "mask-low-bytes", w, f"kept bytes start at {pp(lo)}")
                r, why = grid(q, hi, lambda e: (lambda v: v == (e["t"] - 1) // 8), lambda a: "t" if is_bits(a, gT) else "f" if is_bits(a, gF) else None, {"t": range(9, 801), "f": [900]})
                rep.verdict(r, "mask-width", w, "number of low bytes kept must be (bits of target - 1) / 8: " + why)
            else:
                rep.unk("mask-width", w)
        for e in an.exits():
            for _, v in case_list(q, e):
                same_value_conversion(rep, q, v, A, w, cut)
        gs = [q.accept(g) for g in an.guards(an.exits()) if g.must]
        ok = None
        for p in gs:
            if p[0] in ("Lt", "Gt", "Le", "Ge", "Eq", "Ne") and {True} == {is_bits(p[1]), is_bits(p[2])}:
                o, a, b = p
                if is_bits(a, gF):
                    o, a, b = FLIP[o], b, a
                if is_bits(a, gT) and is_bits(b, gF):
                    ok = (o == "Lt") or bool(ok)
        rep.verdict(False if ok is None and not any(is_bits(x) for p in gs for x in p[1:] if isinstance(x, Term)) else ok, "mask-guard", w, "the target field must be required to be smaller than the source field")
    fn = rep.anchor(prog, U, "field_switching")
    if fn is not None:
        an, q = rep.analyse(prog, fn)
        w = fn.path
        A = T("arg", 1, fn.locals[1][1])
        for e in an.exits():
            for _, v in case_list(q, e):
                src = same_value_conversion(rep, q, v, A, w)
                if src is None:
                    continue
                # every successful return is behind a comparison of input bytes and result bytes
                low, high, cands, tails, heads = None, None, 0, [], []
                def peel(x):
                    if x.op == "index" and x.args[1].op == "ridx":
                        x = T("slice", x.args[0], x.args[1].args[0], x.args[1].args[1])
                    if x.op == "resize" and x.args[2] is const(0) and x.args[1].op == "max" and q.nlen(x.args[0]) in x.args[1].args:
                        x = x.args[0]
                    return (x.args[0], x) if x.op == "slice" else (x, None)
                for g in an.guards([e]):
                    p = q.accept(g)
                    c = g.cond
                    if c.op == "more" and g.must and set(g.acc) == {1} and an.depends(c.args[0], lambda t: t is src):
                        # success needs the loop over the bytes to end early: some byte is as wanted, not all
                        high = False
                    if p[0] not in NEG:
                        continue
                    (a, sa), (b, sb) = peel(p[1]), peel(p[2])
                    da, db = [an.depends(x, lambda t: t is v) for x in (a, b)]
                    ia, ib = [an.depends(x, lambda t: t is A) for x in (a, b)]
                    if da != db and ia and ib:
                        cands += 1
                        inn = sb if da else sa
                        if p[0] != "Eq" or not g.must:
                            low = False
                        elif inn is not None and (inn.args[1] is not const(0) or is_int_const(inn.args[2])):
                            low = False
                        else:
                            low = low is not False
                            if inn is not None:
                                heads.append(inn.args[2])
                            if sa is None and sb is None:
                                high = True
                    # remaining source bytes forced to zero
                    for x, y in ((p[1], p[2]), (p[2], p[1])):
                        if x.op == "elem" and x.args[0].op in ("slice", "skip", "take") and an.depends(x.args[0], lambda t: t is src) and y is const(0):
                            z = x.args[0]
                            ld = guard_domain(q, g)
                            if ld is not None and ld.op in ("take", "filter", "takewhile", "skipwhile", "stepby", "skip") and ld is not z:
                                high = bool(high)
                            elif z.op == "take" or z.args[0] is not src or z.op == "slice" and z.args[2].op != "end":
                                high = bool(high)
                            else:
                                tails.append((z.args[1], p[0] == "Eq" and g.must))
                for lo, good in tails:
                    # the zero test starts where the comparison ends
                    good = good and (lo in heads or lo is const(0) or (None if not heads else False))
                    high = good if high is None or good else high
                rep.verdict(low if cands else False, "switch-compare", w, "the result is returned without comparing its representation with the input's (or only a fixed part of it)")
                rep.verdict(True if high else False if high is False or cands == 0 or all_simple(an, q, e) else None, "switch-high-bytes", w, "input bytes beyond the result's length are not required to be zero")
    fn = rep.anchor(prog, U, "hash_to_field")
    if fn is not None:
        an, q = rep.analyse(prog, fn)
        w = fn.path
        A = T("arg", 1, fn.locals[1][1])
        for e in an.exits():
            for _, v in case_list(q, e):
                if nm(v) not in FROM_BYTES:
                    rep.unk("hash-reduce", w, pp(v, 3))
                    continue
                x = v.args[2]
                if x.op == "slice":
                    lo, hi = x.args[1], x.args[2]
                    d = x.args[0]
                    n = hi if hi.op != "end" else const(64)
                    ln = q.nbin("Sub", n, lo)
                    r, why = grid(q, ln, lambda e: (lambda k: k >= (e["b"] + 7) // 8 + 16 and k <= 64), lambda a: "b" if is_bits(a) else None, {"b": range(9, 385)})
                    rep.verdict(r, "hash-width", w, "digest bytes used: " + why)
                else:
                    d = x
                rep.verdict(fed(q, d, A), "hash-input", w, f"not the whole input is hashed on every path: {pp(d, 4)}")


def guard_domain(q, g):
    """domain of the innermost loop a guard sits in"""
    ls = [(len(b), h) for h, (b, _) in q.an.loops().items() if g.node.id in b]
    return q.loop_domain(min(ls)[1]) if ls else None


def all_simple(an, q, e):
    """no guard of the exit besides plain slice comparisons"""
    return all(q.accept(g)[0] in ("Eq", "Ne") for g in an.guards([e]))


# ------------------------------------------------------------------------ U03
@check("U03", [U], """The integer expressions returned by the size helpers and the padding helper are extracted (all branches, helpers inlined) and compared with the specified
expression: byte length ceil(bits/8), bit length, challenge length 8*(byte length-1) for every modulus bit length 9..800; next multiple for all lengths 0..80 and multiples 1..17
(complete set of residues); padding appends zeros up to exactly that length and keeps the prefix.""", floor=5)
def u03(rep, prog):
    bits = lambda a: "b" if is_bits(a) else None
    for name, spec in (("field_byte_len", lambda e: -(-e["b"] // 8)), ("field_bit_len", lambda e: e["b"]), ("challenge_bit_len", lambda e: 8 * (-(-e["b"] // 8) - 1))):
        fn = rep.anchor(prog, U, name)
        if fn is None:
            continue
        an, q = rep.analyse(prog, fn)
        for e in an.exits():
            decide_cases(rep, q, e, e.exit, spec, bits, {"b": range(9, 801)}, "size", fn.path)
    fn = rep.anchor(prog, U, "compute_len_to_next_multiple")
    if fn is not None:
        an, q = rep.analyse(prog, fn)
        a1, a2 = T("arg", 1, fn.locals[1][1]), T("arg", 2, fn.locals[2][1])
        cl = lambda a: "n" if a is a1 else "m" if a is a2 else None
        for e in an.exits():
            decide_cases(rep, q, e, e.exit, lambda v: -(-v["n"] // v["m"]) * v["m"], cl, {"n": range(0, 81), "m": range(1, 18)}, "next-multiple", fn.path)
    fn = rep.anchor(prog, U, "pad_with_zeros")
    if fn is not None:
        an, q = rep.analyse(prog, fn)
        w = fn.path
        V = T("arg", 1, fn.locals[1][1])
        m = T("arg", 2, fn.locals[2][1])
        cl = lambda a: "n" if a is q.nlen(V) else "m" if a is m else None
        isz = lambda z: True if nm(z) in ("zero", "default") or (z.op == "kconst" and z.args[0].endswith("ZERO")) else False if nm(z) in ("one", "last") or z.op == "index" or (z.op == "kconst" and z.args[0].endswith("ONE")) else None
        for e in an.exits():
            out = e.end.get((0, -1))
            for conds, v in (q.cases(e, out) or []):
                v = q.norm(v)
                nn, z, keep = None, None, None
                if v is V:
                    nn, z, keep = q.nlen(V), None, True
                elif v.op == "resize":
                    nn, z, keep = v.args[1], v.args[2], v.args[0] is V
                elif v.op == "ext" and v.args[0] is V:
                    ps = q.seq(v.args[1])
                    if len(ps) == 1 and ps[0][0] == "rep":
                        nn, z, keep = q.nbin("Add", q.nlen(V), ps[0][2]), ps[0][1], True
                elif v.op == "phi" and q.loop_phi(v) is not None:
                    pad_loop(rep, an, q, w, v, V, cl, isz, conds)
                    continue
                if nn is None:
                    moved = find(q, v, lambda t: nm(t) in MOVES)
                    rep.verdict(False if moved else None, "pad", w, f"existing elements are moved or dropped: {pp(v, 3)}")
                    continue
                rep.verdict(keep or None, "pad-keeps", w, "")
                if z is not None:
                    zs = [isz(x) for _, x in expand(q, None, (), z)]
                    rep.verdict(False if False in zs else None if None in zs else True, "pad-zero", w, f"padding element is {pp(z, 3)}")
                # nn may be a branchy value
                fake = decide_cases(rep, q, e, nn, lambda x: -(-x["n"] // x["m"]) * x["m"], cl, {"n": range(0, 81), "m": range(1, 18)}, "pad-length", w, extra=conds)


MOVES = {"rotate_right", "rotate_left", "reverse", "swap", "sort", "sort_unstable", "truncate", "clear", "insert", "remove", "drain", "fill", "dedup", "retain", "pop", "split_off"}


def pad_loop(rep, an, q, w, v, V, cl, isz, conds):
    """padding by pushing while a condition on the length holds: the loop's length recurrence is tabulated"""
    hd, init, step = q.loop_phi(v)
    if [q.norm(x) for x in init] != [V] or len(set(step)) != 1:
        return rep.unk("pad", w, pp(v, 3))
    st = an.simp(step[0])
    if st.op != "push" or an.simp(st.args[0]) is not v:
        return rep.unk("pad", w, pp(st, 3))
    rep.ok("pad-keeps", w)
    rep.verdict(isz(q.norm(st.args[1])), "pad-zero", w, f"padding element is {pp(st.args[1], 3)}")
    dom = q.loop_domain(hd)
    spec = lambda e: -(-e["n"] // e["m"]) * e["m"]
    rng = {"n": range(0, 41), "m": range(1, 12)}
    if dom is not None and (dom.op == "ridx" or dom.op == "agg" and dom.args[0].split("::")[-1] == "Range"):
        lo, hi = (dom.args[0], dom.args[1]) if dom.op == "ridx" else dom.args[3:5]
        d = q.nbin("Sub", hi, lo)
        return decide_cases(rep, q, None, q.nbin("Add", q.nlen(V), d), spec, cl, rng, "pad-length", w, extra=conds)
    ec = q.exit_conds(hd)
    if len(ec) != 1:
        return rep.unk("pad-length", w)
    cond, stay, _ = ec[0]
    alts = expand(q, None, (), cond)
    lenp = q.nlen(v)
    for n, m in itertools.product(rng["n"], rng["m"]):
        k = n
        for _ in range(60):
            env_of = lambda a: k if a is lenp else {"n": n, "m": m}.get(cl(a))
            r = None
            for cs, c in alts:
                if not consistent(q, cs, env_of):
                    continue
                env = {a: env_of(a) for a in q.iatoms(c)}
                if None in env.values():
                    return rep.unk("pad-length", w, pp(c, 4))
                r = ieval(q, q.norm(c), env)
            if r is None:
                return rep.unk("pad-length", w)
            if r not in stay:
                break
            k += 1
        if k != spec({"n": n, "m": m}):
            return rep.fail("pad-length", w, f"a vector of length {n} is padded to {k} for multiple {m}")
    rep.ok("pad-length", w)


def decide_cases(rep, q, node, term, spec, classify, ranges, facet, w, extra=()):
    """the (branchy) integer value `term` equals spec on the whole grid"""
    cs = q.cases(node, term)
    if cs is None:
        return rep.unk(facet, w)
    # nested branchy subterms
    flat = []
    for conds, v in cs:
        flat += expand(q, node, conds + tuple(extra), v)
    names = list(ranges)
    res, why = True, ""
    for vals in itertools.product(*[ranges[n] for n in names]):
        e = dict(zip(names, vals))
        hit = 0
        for conds, v in flat:
            env_of = lambda a: e.get(classify(a))
            if not consistent(q, conds, env_of):
                continue
            env = {a: env_of(a) for a in q.iatoms(v)}
            if None in env.values():
                return rep.unk(facet, w, "not closed: " + pp(v, 4))
            x = ieval(q, q.norm(v), env)
            if x is None:
                return rep.unk(facet, w, "not closed: " + pp(v, 4))
            hit += 1
            if x != spec(e):
                res, why = False, f"at {e}: {pp(v, 6)} = {x}, specified {spec(e)}"
                break
        if res is False:
            break
    return rep.verdict(res, facet, w, why)
