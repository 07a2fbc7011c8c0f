"""jf-signature: Schnorr, BLS over BN254 and BLS12-381, keys and encodings."""
import re
from common import *
from say import *
from core import check

S = "jf_signature"
SCH = {"challenge", "evaluate", "fq_to_fr", "fq_to_fr_with_mask", "fr_to_fq"}
GAD = {"rescue_sponge_with_padding", "rescue_sponge_no_padding", "unpack", "fixed_base_scalar_mul", "variable_base_binary_scalar_mul", "variable_base_scalar_mul", "ecc_add", "create_point_variable", "create_variable",
       "create_constant_variable", "create_constant_point_variable", "enforce_constant", "enforce_equal", "enforce_point_equal", "is_point_equal", "fr_to_fq", "verify_sig_core", "challenge_bits", "challenge_bit_len",
       "field_bit_len", "create_public_variable", "create_public_point_variable"}


def const_text(rep, prog, crate, name, pick):
    """value of an associated constant"""
    fs = [f for f in prog.find(crate, name) if pick in f.path or pick in f.id]
    if len(fs) != 1:
        return None
    an, q = rep.analyse(prog, fs[0])
    for n in an.exits():
        try:
            return Say(prog, q, fs[0]).text(n.exit)
        except Unknown:
            return None


def lit(s):
    return f"'s:{s}'"


@check("S01", [S], """Schnorr signatures, natively and in circuits: the verification equation and the challenge it uses, the nonce and response of the
signer, which ciphersuite identifier is used, and that the circuit computes the same two points from the same values.""", floor=12)
def schnorr(rep, prog):
    R = lambda name, head, names, **k: Rule(rep, prog, S, name, head, SCH, names, **k)
    v = R("verify", "VerKey", "self msg sig csid", pick="schnorr::")
    if v.ok:
        v.value("verify-result", "Ok(())", "verification returns nothing but success")
        v.needs("verify-key", ["COFACTOR[0]*self.0 != 0"], "the key times the cofactor is not the identity")
        v.needs("verify-equation", ["challenge(self,sig.R,msg,csid)*self.0 + -generator()*sig.s + sig.R == 0"], "G*s = R + c*VK")
        v.only("verify-only", ["COFACTOR[0]*self.0 != 0", "challenge(self,sig.R,msg,csid)*self.0 + -generator()*sig.s + sig.R == 0"], "valid signatures are refused")
    c = R("challenge", "VerKey", "self R msg csid", pick="schnorr::")
    if c.ok:
        h = "evaluate([from_be_bytes_mod_order(csid), aff(self.0).x, aff(self.0).y, aff(R).x, aff(R).y, *msg])"
        c.value("challenge", f"fq_to_fr_with_mask({h}[0])", "the challenge hashes the identifier, the key, R and the whole message")
    s = R("sign", "KeyPair", "self msg csid", pick="schnorr::")
    if s.ok:
        r = "fq_to_fr(evaluate([from_be_bytes_mod_order(csid), fr_to_fq(self.sk.0), *msg])[0])"
        s.value("sign", [f"Signature(s=challenge(self.vk,{r}*generator(),msg,csid)*self.sk.0 + {r}, R={r}*generator())"], "R = G*r and s = c*sk + r, with r derived from the key and the whole message")
    k = R("sign", "SchnorrSignatureScheme", "pp sk msg prng")
    if k.ok:
        r = "fq_to_fr(evaluate([from_be_bytes_mod_order(CS_ID), fr_to_fq(sk.0), *msg])[0])"
        k.value("scheme-sign", [f"Ok(Signature(s=challenge(VerKey(generator()*sk.0),{r}*generator(),msg,CS_ID)*sk.0 + {r}, R={r}*generator()))"], "signing uses the given key, message and the scheme's identifier")
    k = R("verify", "SchnorrSignatureScheme", "pp vk msg sig")
    if k.ok:
        k.needs("scheme-verify-key", ["COFACTOR[0]*vk.0 != 0"], "the key times the cofactor is not the identity")
        k.needs("scheme-verify", ["challenge(vk,sig.R,msg,CS_ID)*vk.0 + -generator()*sig.s + sig.R == 0"], "verification uses the given key, message, signature and the scheme's identifier")
    # ---- circuit
    G = lambda name, names: Rule(rep, prog, S, name, "PlonkCircuit", GAD, names, cs=1)
    g = G("verify_signature", "cs vk msg sig")
    core = "verify_sig_core(vk,msg,sig)"
    if g.ok:
        g.needs("circuit-verify", [f"enforce_point_equal({core}.{a},{core}.{1 - a}) is Ok" for a in (0, 1)], "the two points are constrained to be equal")
    g = G("check_signature_validity", "cs vk msg sig")
    if g.ok:
        g.value("circuit-check", [f"is_point_equal({core}.{a},{core}.{1 - a})" for a in (0, 1)] + [f"Ok(is_point_equal({core}.{a},{core}.{1 - a}))" for a in (0, 1)], "the result is the equality of the two points")
    g = G("verify_sig_core", "cs vk msg sig")
    if g.ok:
        x = "fixed_base_scalar_mul(sig.s,generator())"
        z = "variable_base_binary_scalar_mul(challenge_bits(vk,sig.R,msg),vk.0)"
        g.value("circuit-points", [f"Ok(({x}, ecc_add(sig.R,{z})))", f"Ok(({x}, ecc_add({z},sig.R)))", f"Ok((ecc_add(sig.R,{z}), {x}))"], "the points are s*G and R + c*VK")
    g = G("challenge_bits", "cs vk R msg")
    if g.ok:
        id = const_text(rep, prog, S, "CS_ID", "schnorr")
        d = f"from_be_bytes_mod_order({id})"
        for var, facet in ((f"create_variable({d})", "made"), (f"create_constant_variable({d})", "const")):
            try:
                used = any(var in g.say.text(v) for _, v in g.cases())
            except Unknown:
                used = None
            if used:
                break
        g.value("circuit-challenge", f"Ok(unpack(rescue_sponge_with_padding([{var}, vk.0.0, vk.0.1, R.0, R.1, *msg],1)[0],field_bit_len())[:challenge_bit_len()])",
                "the challenge bits hash the scheme's identifier, the key, R and the whole message, and are cut to the length of the masked challenge")
        if facet == "made":
            g.needs("circuit-identifier", [f"enforce_constant({var},{d}) is Ok"], "the identifier is constrained to its value")
    g = G("create_signature_variable", "cs sig")
    if g.ok:
        g.value("circuit-signature", "Ok(SignatureVar(s=create_variable(fr_to_fq(sig.s)), R=create_point_variable(TEPoint(aff(sig.R).x, aff(sig.R).y))))", "the variables carry the parts of the signature")
    g = G("create_signature_vk_variable", "cs vk")
    if g.ok:
        g.value("circuit-key", "Ok(VerKeyVar(create_point_variable(TEPoint(aff(vk.0).x, aff(vk.0).y))))", "the variable carries the key")


BLS = {"hash_to_curve", "check"}


@check("S02", [S], """BLS signatures over BN254 and BLS12-381: the pairing equations of single, aggregate and multi signature verification, the checks on keys,
signatures and list lengths before them, the hash to the curve, and the identifier that is hashed with the message on both sides.""", floor=20)
def bls(rep, prog):
    H = "BLSOverBN254CurveSignatureScheme"
    R = lambda name, head, names, **k: Rule(rep, prog, S, name, head, BLS, names, **k)
    v = R("verify", "VerKey", "self msg sig csid", pick="bn254::")
    eq = "-e*generator()*sig.sigma + e*hash_to_curve([*msg, *csid])*self.0 == 0"
    if v.ok:
        v.value("verify-result", "Ok(())", "verification returns nothing but success")
        v.needs("verify-curve", "is_on_curve(sig.sigma)", "the signature is a point of the curve")
        v.needs("verify-equation", eq, "e(sigma, g2) = e(H(msg, csid), vk)")
        v.only("verify-only", [eq, "is_on_curve(sig.sigma)"], "valid signatures are refused")
    s = R("sign", "KeyPair", "self msg csid", pick="bn254::")
    if s.ok:
        s.value("sign", "Signature(sigma=hash_to_curve([*msg, *csid])*self.sk.0)", "the signature is sk*H(msg, csid)")
    id = const_text(rep, prog, S, "CS_ID", "bn254")
    s = R("sign", H, "pp sk msg prng")
    if s.ok:
        s.value("scheme-sign", f"Ok(Signature(sigma=hash_to_curve([*msg, *{id}])*sk.0))", "signing uses the given key, message and the scheme's identifier")
    h = f"hash_to_curve([*msg, *{id}])"
    v = R("verify", H, "pp vk msg sig")
    if v.ok:
        v.needs("scheme-verify-curve", "is_on_curve(sig.sigma)", "the signature is a point of the curve")
        v.needs("scheme-verify", f"-e*generator()*sig.sigma + e*{h}*vk.0 == 0", "verification uses the given key, message, signature and the scheme's identifier")
    a = R("aggregate", H, "pp vks sigs")
    if a.ok:
        a.needs("aggregate-empty", ["len(sigs) != 0", "0 < len(sigs)"], "an empty list of signatures is refused")
        a.value("aggregate", ["Ok(Signature(sigma=sigs[0].sigma + sum(sigs[1:]: sigs[1:][i].sigma)))", "Ok(Signature(sigma=sum(sigs: sigs[i].sigma)))"], "the sum of all signatures")
    many = f"-e*generator()*sig.sigma + sum(msgs&vks: e*hash_to_curve([*msgs[i], *{id}])*vks[i].0) == 0"
    one = f"-e*generator()*sig.sigma + e*{h}*sum(vks: vks[i].0) == 0"
    empty, lens, keys, curve = ["len(vks) != 0", "0 < len(vks)"], ["-len(msgs) + len(vks) == 0"], ["check(vks[i]) is Ok for i in vks"], ["is_on_curve(sig.sigma)"]
    for name, names, want, extra in (("aggregate_verify", "pp vks msgs sig", many, [("lengths", lens), ("keys", keys), ("curve", curve)]),
                                     ("aggregate_verify_unchecked", "vks msgs sig", many, [("lengths", lens)]),
                                     ("multi_sig_verify", "pp vks msg sig", one, [("keys", keys), ("curve", curve)]),
                                     ("multi_sig_verify_unchecked", "vks msg sig", one, [])):
        v = R(name, H, names)
        if not v.ok:
            continue
        v.value(f"{name}-result", "Ok(())", "verification returns nothing but success")
        v.needs(f"{name}-empty", empty, "an empty list of keys is refused")
        for f, w in extra:
            v.needs(f"{name}-{f}", w, {"lengths": "as many messages as keys", "keys": "every key is valid", "curve": "the signature is a point of the curve"}[f])
        v.needs(f"{name}-equation", want, "the pairing equation over all keys" + (" and messages" if want is many else ""))
        v.only(f"{name}-only", empty + [want] + [x for _, w in extra for x in w], "valid signatures are refused")
    hashed(rep, prog)
    hashes(rep, prog, H)
    # ---- BLS12-381
    B = "BLSSignatureScheme"
    id = const_text(rep, prog, S, "CS_ID", "bls12381")
    v = R("verify", B, "pp vk msg sig")
    if v.ok:
        v.needs("verify12-key", ["check(vk) is Ok", "validate(vk.0) is Ok"], "the key is valid")
        v.needs("verify12-signature", ["check(sig) is Ok", "validate(sig.0,True) is Ok"], "the signature is valid")
        w = [f"verify(sig.0,{g},msg,{id},[],vk.0,{k}) is BLST_SUCCESS" for g in ("False", "True") for k in ("True", "False")]
        v.needs("verify12-equation", w, "the library verifies this signature for this message and key under the scheme's identifier")
        v.only("verify12-only", w + ["check(vk) is Ok", "validate(vk.0) is Ok", "check(sig) is Ok", "validate(sig.0,True) is Ok"], "valid signatures are refused")
    for head, want in (("BLSVerKey", ["validate(self.0)"]), ("BLSSignature", ["validate(self.0,True)"])):
        v = Rule(rep, prog, S, "check", head, (), "self", trait="Valid")
        if v.ok:
            v.needs(f"valid12-{head}", [f"{x} is Ok" for x in want], "validity includes the subgroup and the identity")
    s = R("sign", B, "pp sk msg prng")
    if s.ok:
        s.value("sign12", f"Ok(BLSSignature(sign(sk.0,msg,{id},[])))", "signing uses the given key, message and the scheme's identifier")
    k = R("key_gen", B, "pp prng")
    if k.ok:
        x = "key_gen(fill_bytes'1(prng,[{0 x 32}]),[])"
        k.value("keygen12", f"Ok((BLSSignKey({x}), BLSVerKey(sk_to_pk({x}))))", "the key pair comes from 32 fresh random bytes")


def hashes(rep, prog, H):
    """the same hash function everywhere"""
    seen = {}
    for name, head, pick in (("verify", "VerKey", "bn254::"), ("sign", "KeyPair", "bn254::"), ("aggregate_verify", H, None), ("multi_sig_verify", H, None), ("aggregate_verify_unchecked", H, None), ("multi_sig_verify_unchecked", H, None)):
        r = Rule(rep, prog, S, name, head, BLS, None, pick=pick)
        if not r.ok:
            continue
        for e in r.an.events:
            if e.name.split("::")[-1] == "hash_to_curve" and e.ret is not None and e.ret.op == "call":
                seen.setdefault(str(e.ret.args[1]), r.w)
    rep.verdict(len(seen) == 1 if seen else None, "hash-function", "bls_over_bn254", f"signers and verifiers hash with different functions: {seen}")


def hashed(rep, prog):
    """hash to the curve: x from the message, x + 1 until x^3 + 3 is a square, the smaller root"""
    r = Rule(rep, prog, S, "hash_to_curve", None, (), "msg")
    if not r.ok:
        return
    an, q, w, say = r.an, r.q, r.w, r.say
    X = "hash_to_field(new([1]),msg)[0]"
    loops = an.loops()
    if len(loops) != 1:
        return rep.verdict(None, "curve-shape", w, f"{len(loops)} loops")
    (h, (body, _)), = loops.items()
    news = [e for e in an.events if e.name.split("::")[-1] in ("new", "new_unchecked") and e.name.startswith(("Affine", "Projective")) and len(e.args) >= 2]
    if not news:
        return rep.verdict(None, "curve-shape", w, "the point is not built from coordinates")
    xs, ys = {q.an.simp(e.args[0]) for e in news}, [y for e in news for _, y in outcomes(q, an.nodes[nid_(e)], e.args[1])]
    x = xs.pop() if len(xs) == 1 else None
    if x is None or x.op != "phi" or x.args[0] != h:
        return rep.verdict(None, "curve-shape", w, "the x coordinate is not the value of the search")
    rec = recur(q, x)
    if rec is None:
        return rep.verdict(None, "curve-shape", w, "the search does not have one step")
    try:
        init = say.text(rec[0])
        say.names[x] = "x"
        step = say.text(rec[1])
    except Unknown as ex:
        return rep.verdict(None, "curve-shape", w, str(ex))
    rep.verdict(init == X, "curve-start", w, f"the search starts at {init}, expected {X}")
    rep.verdict(step == "1 + x", "curve-step", w, f"the search goes on with {step}, expected x + 1")
    C = "3 + x*x*x"

    def square(t):
        """is t = x^3 + 3 for the current x"""
        t = q.an.simp(t)
        if t.op == "phi" and t.args[0] == h:
            rc = recur(q, t)
            if rc is None:
                return None
            try:
                a = say.text(rc[1])
                del say.names[x]
                say.memo = {}
                b = say.text(rc[0])
            finally:
                say.names[x] = "x"
                say.memo = {}
            return a == "4 + 3*x + 3*x*x + x*x*x" and b == f"3 + {X}*{X}*{X}"
        say.memo = {}
        return say.text(t) == C
    try:
        conds = q.exit_conds(h)
        ok = None
        for c, stay, n in conds:
            p = q.pred_of(q.norm(c), {1} if stay == {0} else {0})
            t = p[1]
            if p[0] == "false" and nm(t) == "is_qnr" or p[0] == "true" and nm(t) in ("is_qr",):
                lg = q.norm(t.args[2])
                ok = square(lg.args[2]) if nm(lg) == "legendre" else None
        rep.verdict(ok, "curve-square", w, "the search ends at a square x^3 + 3")
        roots = []
        for y in ys:
            neg = False
            y = q.norm(y)
            if y.op == "un" and y.args[0] == "Neg":
                neg, y = True, q.norm(y.args[1])
            elif y.op == "out" and nm(y.args[0]) in ("neg_in_place",):
                neg, y = True, q.norm(y.args[0].args[2])
            elif nm(y) == "neg":
                neg, y = True, q.norm(y.args[2])
            c = okof(y)
            roots.append((neg, square(c.args[2]) if c is not None and nm(c) == "sqrt" else None))
        rep.verdict(None if any(x is None for _, x in roots) or not roots else all(x for _, x in roots), "curve-root", w, "the y coordinate is a root of x^3 + 3")
        gts = [e for e in an.events if e.name.split("::")[-1] in ("gt", "lt", "ge", "le")]
        which = None
        for e in news:
            for conds, y in outcomes(q, an.nodes[nid_(e)], e.args[1]):
                y = q.norm(y)
                neg = y.op == "un" or y.op == "out" or nm(y) == "neg"
                for c, l in conds:
                    big = bigger(q, c)
                    if big is None or l not in (0, 1, False, True):
                        continue
                    v = (big == bool(l)) == neg
                    which = v if which is None else which and v
        rep.verdict(which, "curve-sign", w, "of the two roots the one below half the modulus is taken")
    except Unknown as ex:
        rep.verdict(None, "curve-shape", w, str(ex))


def bigger(q, c):
    """True / False when the condition says that twice the root is above / below the modulus"""
    c = q.norm(c)
    o, a, b = None, None, None
    if c.op == "bin" and c.args[0] in ("Gt", "Lt", "Ge", "Le"):
        o, a, b = c.args
    elif nm(c) in ("gt", "lt", "ge", "le") and len(c.args) == 4:
        o, a, b = nm(c).capitalize(), q.norm(c.args[2]), q.norm(c.args[3])
    if o is None:
        return None
    m = lambda t: t.op == "kconst" and t.args[0].endswith("MODULUS")
    d = lambda t: t.op == "out" and nm(t.args[0]) == "mul2"
    if d(a) and m(b):
        return o in ("Gt", "Ge")
    if m(a) and d(b):
        return o in ("Lt", "Le")
    return None


def nid_(e):
    return e.node if isinstance(e.node, int) else e.node.id


def secret(rep, prog, crate, head, pick, facet):
    """Debug prints a name only"""
    d = Rule(rep, prog, crate, "fmt", head, (), "self f", pick=pick, trait="Debug")
    if d.ok:
        me = arg(d.fn, 1)
        bad = [e.name for e in d.an.events if any(t is me for a in e.args for t in d.an.subterms(a, True))]
        rep.verdict(not bad, facet, d.w, f"the printed form depends on the key: {bad}")


@check("S03", [S], """Keys and encodings of the signature schemes: the public key belongs to the secret key however the pair is made, bytes and tagged text
keep the key, foreign tags are refused, decoding validates lengths, modes and points, secret keys are erased and not printed.""", floor=40)
def keys(rep, prog):
    R = lambda name, head, names, **k: Rule(rep, prog, S, name, head, (), names, **k)
    for m, pre in (("bn254::", "bn254"), ("schnorr::", "schnorr")):
        g = Rule(rep, prog, S, "generate", "KeyPair", {"generate"}, "prng", pick=m)
        if g.ok:
            g.value(f"{pre}-generate", ["KeyPair(sk=generate(prng), vk=VerKey(generate(prng).0*generator()))", "KeyPair(sk=SignKey(rand(prng)), vk=VerKey(generator()*rand(prng)))"], "vk = G*sk with a fresh sk")
        g = R("generate", "SignKey", "prng", pick=m)
        if g.ok:
            g.value(f"{pre}-fresh", "SignKey(rand(prng))", "the key is drawn from the given randomness")
        g = R("generate_with_sign_key", "KeyPair", "sk", pick=m)
        if g.ok:
            g.value(f"{pre}-given", "KeyPair(sk=SignKey(sk), vk=VerKey(generator()*sk))", "vk = G*sk")
        g = R("from", "KeyPair", "sk", pick=m)
        if g.ok:
            g.value(f"{pre}-from", "KeyPair(sk=sk, vk=VerKey(generator()*sk.0))", "vk = G*sk")
        g = Rule(rep, prog, S, "from", "VerKey", (), "sk", pick=f"From<&{m}SignKey" if pre != "bn254" else "From<&bls_over_bn254::SignKey")
        if g.ok:
            g.value(f"{pre}-public", "VerKey(generator()*sk.0)", "vk = G*sk")
        g = R("from_bytes", "KeyPair", "bytes", pick=m)
        if g.ok:
            b = "from_le_bytes_mod_order(bytes)"
            g.value(f"{pre}-pair-decode", f"KeyPair(sk=SignKey({b}), vk=VerKey({b}*generator()))", "the pair of the encoded key")
        g = R("to_bytes", "KeyPair", "self", pick=m)
        if g.ok:
            g.value(f"{pre}-pair-encode", "to_bytes_le(into_bigint(self.sk.0))", "the encoding of the secret key")
        g = R("from_bytes", "SignKey", "bytes", pick=m)
        if g.ok:
            g.value(f"{pre}-key-decode", "SignKey(from_le_bytes_mod_order(bytes))", "the encoded key")
        g = R("to_bytes", "SignKey", "self", pick=m)
        if g.ok:
            g.value(f"{pre}-key-encode", "to_bytes_le(into_bigint(self.0))", "the encoding of the key")
        for head, acc in (("KeyPair", "self.sk.0"), ("SignKey", "self.0")):
            t = R("to_tagged_base64", head, "self", pick=m)
            tags = set()
            if t.ok:
                for _, v in t.cases():
                    try:
                        x = t.say.text(v)
                    except Unknown:
                        x = ""
                    mm = re.fullmatch(r"(?:Ok\()?new\(('s:[^']*'),to_bytes_le\(into_bigint\((.*?)\)\)\)\)?", x)
                    rep.verdict((mm.group(2) == acc) if mm else None, f"{pre}-{head}-tagged", t.w, f"the tagged text carries {x}")
                    if mm:
                        tags.add(mm.group(1))
            for kind in ("&'a tagged", "<tagged"):
                d = Rule(rep, prog, S, "try_from", head, {"from_bytes"}, "tb", pick=None, trait=None) if False else None
                fs = [f for f in prog.find(S, "try_from", head) if m in f.path and kind in f.path]
                if len(fs) != 1:
                    rep.verdict(False if not fs else None, f"{pre}-{head}-untagged", f"{m}{head}", "decoding from tagged text is missing")
                    continue
                d = Rule(rep, prog, S, "try_from", head, {"from_bytes"}, "tb", pick=fs[0].path)
                if d.ok and len(tags) == 1:
                    d.needs(f"{pre}-{head}-tag", f"-{next(iter(tags))} + tag(tb) == 0", "text with a foreign tag is refused")
                    d.value(f"{pre}-{head}-untagged", "Ok(from_bytes(tb))", "the key that the text carries")
        secret(rep, prog, S, "SignKey", m, f"{pre}-hidden")
        erased(rep, prog, S, "SignKey", m, f"{pre}-erased")
    g = R("randomize_with", "KeyPair", "self r")
    if g.ok:
        g.value("randomize", "KeyPair(sk=SignKey(r + self.sk.0), vk=VerKey(generator()*r + self.vk.0))", "sk + r and vk + G*r")
    g = R("randomize_with", "VerKey", "self r")
    if g.ok:
        g.value("randomize-public", "VerKey(generator()*r + self.0)", "vk + G*r")
    g = Rule(rep, prog, S, "key_gen", "SchnorrSignatureScheme", {"generate"}, "pp prng")
    if g.ok:
        g.value("schnorr-keygen", "Ok((generate(prng).sk, generate(prng).vk))", "the two keys of one pair")
    g = Rule(rep, prog, S, "key_gen", "BLSOverBN254CurveSignatureScheme", {"generate"}, "pp prng")
    if g.ok:
        g.value("bn254-keygen", ["Ok((SignKey(generate(prng).sk.0), generate(prng).vk))", "Ok((generate(prng).sk, generate(prng).vk))"], "the two keys of one pair")
    # ---- BLS12-381
    secret(rep, prog, S, "BLSSignKey", None, "bls12-hidden")
    erased(rep, prog, S, "BLSSignKey", None, "bls12-erased")
    g = R("from_bytes", "BLSSignKey", "bytes")
    if g.ok:
        g.value("bls12-key-decode", "Ok(BLSSignKey(from_bytes(bytes)))", "the encoded key")
    g = R("to_bytes", "BLSSignKey", "self")
    if g.ok:
        g.value("bls12-key-encode", ["to_bytes(self.0)", "serialize(self.0)"], "the encoding of the key")
    for head, small, big in (("BLSVerKey", 96, 192), ("BLSSignature", 48, 96)):
        coded(rep, prog, head, small, big)


def erased(rep, prog, crate, head, pick, facet):
    """dropping the value clears it"""
    fs = [f for f in prog.find(crate, "drop", head) if pick is None or pick in f.path]
    if len(fs) != 1:
        return rep.verdict(False, facet, f"{crate}::{head}", "the secret is not cleared when it is dropped")
    an, q = rep.analyse(prog, fs[0], opaque=lambda g: g.intrait or g.name == "zeroize" and g is not fs[0])
    me = arg(fs[0], 1)
    es = [e for e in an.events if e.name.split("::")[-1] == "zeroize" and any(t is me for a in e.args for t in an.subterms(a, True))]
    must = any(all(e_dom(an, nid_(e), n.id) for n in an.exits()) for e in es)
    rep.verdict(must, facet, fs[0].path, "the secret is not cleared when it is dropped")


def e_dom(an, a, b):
    idom = an.dom()
    while True:
        if a == b:
            return True
        if b not in idom or idom[b] == b or b == 0:
            return a == b or a == 0
        b = idom[b]


def coded(rep, prog, head, small, big):
    d = Rule(rep, prog, S, "deserialize_with_mode", head, {"check"}, "reader compress validate")
    if d.ok:
        ps = d.paths()
        if ps is None or any(None in p for p in ps):
            rep.verdict(None, f"{head}-decode", d.w, "the ways through the function are not understood")
        else:
            for comp in (True, False):
                for val in (True, False):
                    mine = [p for p in ps if fits(p, {"compress": comp, "validate": val})]
                    n = small if comp else big
                    rep.verdict(bool(mine), f"{head}-decode", d.w, "nothing can be decoded in one of the modes")
                    L = re.compile(rf"^-{n} \+ deserialize_with_mode\(.*\) == 0$")
                    F = re.compile(rf"^{'uncompress' if comp else 'deserialize'}\(read_exact'1\(.*\[\{{0 x {n}\}}\]\)\) is Ok$")
                    V = re.compile(r"^(check|validate)\(.*\) is Ok$|^not is_err\((check|validate)\(.*\)\)$|^is_ok\((check|validate)\(.*\)\)$")
                    for p in mine:
                        rep.verdict(any(L.match(x) for x in p), f"{head}-length", d.w, f"the encoded length must be {n} in the {'compressed' if comp else 'uncompressed'} mode: {[x for x in p if '== 0' in x]}")
                        rep.verdict(any(F.match(x) for x in p), f"{head}-mode", d.w, f"{n} bytes are decoded in the {'compressed' if comp else 'uncompressed'} mode")
                        if val:
                            rep.verdict(any(V.match(x) for x in p), f"{head}-valid", d.w, "decoding with validation checks the point")
    s = Rule(rep, prog, S, "serialize_with_mode", head, (), "self writer compress")
    if s.ok:
        for c, v in s.cases():
            try:
                t = s.say.text(v)
                ps = [s.say.pred(p) for p in as_preds_(s.q, c)]
            except Unknown as ex:
                rep.verdict(None, f"{head}-encode", s.w, str(ex))
                continue
            if fits(ps, {"compress": True}) and not fits(ps, {"compress": False}):
                rep.verdict(t == "serialize_compressed(compress(self.0),writer)", f"{head}-encode", s.w, f"compressed: found {t}")
            elif fits(ps, {"compress": False}) and not fits(ps, {"compress": True}):
                rep.verdict(t == "serialize_compressed(serialize(self.0),writer)", f"{head}-encode", s.w, f"uncompressed: found {t}")
            else:
                rep.verdict(None, f"{head}-encode", s.w, f"found {t} when {ps}")


def as_preds_(q, conds):
    from relation_circuit_rules import as_preds
    return as_preds(q, conds)


def fits(ps, env):
    """can the conditions hold for these modes"""
    for p in ps:
        for k, v in env.items():
            for e, yes in (("Yes", True), ("No", False)):
                if p == f"-{e}() + {k} == 0" and v != yes or p == f"-{e}() + {k} != 0" and v == yes:
                    return False
                if p == f"{k} is {e}" and v != yes:
                    return False
    return True
