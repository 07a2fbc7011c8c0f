"""jf-vrf, jf-aead and jf-elgamal."""
import re
from common import *
from say import *
from signature_rules import erased, nid_
from core import check

V, A, E = "jf_vrf", "jf_aead", "jf_elgamal"


@check("V01", [V], """The VRF: proof, output and verification are the signature scheme's and the hash of the serialised proof; the output is only given with a verified proof and is the
one the prover computes; the suite names its hash function; a hasher that was used before does not matter.""", floor=6)
def vrf(rep, prog):
    op = {"proof_to_hash", "sign", "verify", "key_gen", "prove"}
    H = "BLSVRFScheme"
    R = lambda name, names: Rule(rep, prog, V, name, H, op, names)
    r = R("key_gen", "self pp prng")
    if r.ok:
        r.value("keys", "Ok(key_gen(pp,prng))", "the keys of the signature scheme")
    r = R("prove", "self pp secret_key input prng")
    if r.ok:
        r.value("proof", "Ok(sign(pp,secret_key,input,prng))", "the proof is the signature of the input")
    r = R("proof_to_hash", "self pp proof")
    if r.ok:
        r.value("output", [f"Ok(finalize(update'0(box_clone(self.hasher),{x})))" for x in ("serialize(proof.0)", "to_bytes(proof.0)", "compress(proof.0)")], "the output is the hash of the whole proof")
        r.keeps("output-state", 1, "computing an output changes the scheme")
    r = R("verify", "self pp proof public_key input")
    if r.ok:
        v = "verify(pp,public_key,input,proof)"
        bad = lambda k: [f"{v} is {k}"]
        r.casewise("verify", {"Ok((False, None()))": bad("Err"), "Ok((True, Some(proof_to_hash(self,pp,proof))))": bad("Ok")}, "an output exactly for a verified proof")
    r = Rule(rep, prog, V, "evaluate", None, op, "self pp secret_key input prng")
    if r.ok:
        r.value("evaluate", ["proof_to_hash(self,pp,prove(self,pp,secret_key,input,prng))", "Ok(proof_to_hash(self,pp,prove(self,pp,secret_key,input,prng)))"], "the output of the proof")
    r = R("new", "cs_id")
    if r.ok:
        n = 0
        for conds, v in r.cases():
            for c, l in conds:
                p = r.q.pred_of(r.q.norm(c), r.say.accepted(r.q.norm(c), l))
                if p[0] != "is" or len(p[2]) != 1:
                    continue
                n += 1
                size = next(iter(p[2])).split("SHA")[-1]
                tys = [str(t.args[1]) for t in r.an.subterms(v, True) if t.op == "call" and nm(t) in ("new", "default")]
                rep.verdict(all(f"Sha{size}" in t for t in tys) if tys else None, f"suite-{size}", r.w, f"the suite {next(iter(p[2]))} uses {tys}")
        rep.verdict(n >= 2, "suites", r.w, f"{n} suites are told apart")


@check("A01", [A], """Authenticated encryption: which shared key, nonce and payload encryption uses and hands out, that decryption uses the same, key conversions, and that
encodings read back exactly what was written and refuse other lengths.""", floor=14)
def aead(rep, prog):
    R = lambda name, head, names, **k: Rule(rep, prog, A, name, head, (), names, **k)
    r = R("encrypt", "EncKey", "self rng message aad")
    if r.ok:
        pair, other = "generate(rng)", "generate'0(rng)"
        non = f"generate_nonce({other})"
        k = f"new(session_keys_to({pair},self.0).tx)"
        r.value("encrypt", f"Ok(Ciphertext(nonce=Nonce({non}), ct=encrypt({k},{non},Payload(message, aad)), ephemeral_pk=EncKey(public({pair}))))",
                "the message and associated data under the sending key of a fresh pair and a fresh nonce, handed out with that nonce and the public key of that pair")
    r = R("decrypt", "KeyPair", "self ciphertext aad")
    if r.ok:
        k = "new(session_keys_from(self.dec_key.0,ciphertext.ephemeral_pk.0).rx)"
        d = f"decrypt({k},ciphertext.nonce.0,Payload(ciphertext.ct, aad))"
        r.value("decrypt", f"Ok({d})", "the ciphertext and associated data under the receiving key for the sender's public key and the nonce of the ciphertext")
        r.needs("authentic", f"{d} is Ok", "a ciphertext that does not authenticate is refused")
    r = R("generate", "KeyPair", "rng")
    if r.ok:
        r.value("generate", ["KeyPair(enc_key=EncKey(split(generate(rng)).0), dec_key=DecKey(split(generate(rng)).1))", "KeyPair(enc_key=EncKey(public(generate(rng))), dec_key=DecKey(secret(generate(rng))))"], "the two halves of one fresh pair")
    r = R("from", "EncKey", "dec_key", pick="From<DecKey>")
    if r.ok:
        r.value("public", "EncKey(public(dec_key.0))", "the public key of the secret key")
    for head in ("EncKey", "DecKey"):
        r = R("from", head, "bytes", pick="From<[u8; 32]>")
        if r.ok:
            r.value(f"{head}-bytes", f"{head}(bytes)", "the key of these bytes")
        fs = [f for f in prog.find(A, "from") if f"From<{head}> for [u8; 32]" in f.path or f"[u8; 32] as std::convert::From<{head}>" in f.path]
        if len(fs) == 1:
            r = Rule(rep, prog, A, "from", None, (), "key", pick="=" + fs[0].path)
            if r.ok:
                r.value(f"{head}-to-bytes", ["key.0", "to_bytes(key.0)", "as_ref(key.0)"], "the bytes of the key")
    r = R("enc_key", "KeyPair", "self")
    if r.ok:
        r.value("getter", ["EncKey(self.enc_key.0)", "self.enc_key"], "the public key of the pair")
    r = R("enc_key_ref", "KeyPair", "self")
    if r.ok:
        r.value("getter", ["EncKey(self.enc_key.0)", "self.enc_key"], "the public key of the pair")
    for head, n, ser in (("EncKey", 32, ["EncKey(self.0)", "self.0"]), ("DecKey", 32, ["DecKey(self.0)", "self.0", "to_bytes(self.0)"]), ("Nonce", 24, ["self.0"])):
        r = R("serialize_with_mode", head, "self writer mode", trait="CanonicalSerialize")
        if r.ok:
            r.needs(f"{head}-write", [f"write_all(writer,{x}) is Ok" for x in ser], "all bytes of the value are written")
            r.emits(f"{head}-write-only", "write_all", [f"writer,{x}" for x in ser], "nothing else is written")
        r = R("deserialize_with_mode", head, "reader mode validate", trait="CanonicalDeserialize")
        if r.ok:
            b = f"[{{0 x {n}}}]"
            r.value(f"{head}-read", f"Ok({head}(read_exact'1(reader,{b})))", "the value of exactly the bytes that were written")
            r.needs(f"{head}-short", f"read_exact(reader,{b}) is Ok", "too few bytes are refused")
        r = R("serialized_size", head, "self mode", trait="CanonicalSerialize")
        if r.ok:
            r.value(f"{head}-size", [str(n), "len(self.0)"], "the size of the encoding")
    r = R("serialize", "Nonce", "self serializer", trait="serde::Serialize")
    if r.ok:
        r.value("nonce-serialize", "serialize_bytes(serializer,self.0)", "the bytes of the nonce")
    r = R("deserialize", "Nonce", "deserializer", trait="serde::Deserialize")
    if r.ok:
        r.value("nonce-deserialize", ["deserialize_byte_buf(deserializer,NonceVisitor())", "deserialize_bytes(deserializer,NonceVisitor())"], "bytes, as they were written")
    r = R("visit_byte_buf", "NonceVisitor", "self v")
    if r.ok:
        r.value("nonce-bytes", ["Ok(Nonce(from_slice(v)))", "Ok(Nonce(clone_from_slice(v)))"], "the nonce of these bytes")
        r.needs("nonce-length", ["-len(0) + len(v) == 0", "-24 + len(v) == 0"], "bytes of another length are refused")
    seq(rep, prog)


def seq(rep, prog):
    """a nonce from a sequence: all elements, one byte each, and as many as a nonce has"""
    r = Rule(rep, prog, A, "visit_seq", "NonceVisitor", (), "self seq")
    if not r.ok:
        return
    an, q, w = r.an, r.q, r.w
    ss = [e for e in an.events if e.name.split("::")[-1] in ("from_slice", "clone_from_slice")]
    rep.verdict(True if ss else None, "nonce-seq", w, "the nonce is not taken from a list of bytes")
    for e in ss:
        b = q.an.simp(e.args[0])
        ok = False
        for g in an.guards(r.oks):
            if not g.must:
                continue
            p = q.accept(g)
            if p[0] == "Eq" and any(x.op == "len" and (q.an.simp(x.args[0]) is b or q.norm(x.args[0]) is q.norm(b)) for x in p[1:] if isinstance(x, Term)):
                ok = True
        rep.verdict(ok, "nonce-seq-length", w, "a sequence of another length is refused")
        pushes = [t for t in an.subterms(b, True) if t.op == "push"]
        if b.op == "phi" and b in an.phis:
            pushes += [x for x in an.phis[b].values() if x.op == "push"]
        for t in pushes:
            c = okof(q.norm(t.args[1])) if okof(q.norm(t.args[1])) is not None else q.norm(t.args[1])
            names = {nm(x) for x in an.subterms(c, True) if x.op == "call"}
            rep.verdict("next_element" in names if names else None, "nonce-seq-bytes", w, f"the bytes come from {sorted(names)}")


ECC = {"apply_counter_mode_stream", "apply_counter_mode_stream_no_padding", "eval", "key_schedule", "prp_with_round_keys", "is_on_curve", "is_in_correct_subgroup_assuming_on_curve", "default", "pad_with_zeros",
       "compute_len_to_next_multiple", "variable_base_scalar_mul", "rescue_permutation", "fixed_base_scalar_mul", "create_point_variable", "create_variable", "add", "add_constant", "zero"}


@check("E01", [E], """ElGamal hybrid encryption, natively and in circuits: the shared point, the key derived from it, the key stream (one block cipher call per block on the nonce
plus the block number), that decryption subtracts what encryption added, lengths, and conversions to and from field elements.""", floor=16)
def elgamal(rep, prog):
    R = lambda name, head, names, **k: Rule(rep, prog, E, name, head, ECC, names, **k)
    key = lambda p: f"eval(0,RescueVector(vec=[aff({p}).x, aff({p}).y, 0, 0]))"
    enc = lambda p, nonce="0": f"apply_counter_mode_stream({key(p)},msg,{nonce},Encrypt())"
    r = R("deterministic_encrypt", "EncKey", "self r msg")
    if r.ok:
        r.value("encrypt-with", f"Ciphertext(ephemeral=EncKey(key=generator()*r), data={enc('r*self.key')})", "G*r and the message under the key of r*pk")
    r = R("encrypt", "EncKey", "self prng msg")
    if r.ok:
        r.value("encrypt", f"Ciphertext(ephemeral=EncKey(key=generator()*rand(prng)), data={enc('rand(prng)*self.key')})", "as with a fresh random r")
    for head, names, dk in (("DecKey", "self ctext", "self.key"), ("KeyPair", "self ctext", "self.dec.key")):
        r = R("decrypt", head, names)
        if r.ok:
            p = "*".join(sorted(["ctext.ephemeral.key", dk]))
            r.value(f"decrypt-{head}", f"apply_counter_mode_stream({key(p)},ctext.data,0,Decrypt())", "the whole ciphertext under the key of dec*ephemeral, with the same nonce")
    stream(rep, prog)
    r = R("generate", "KeyPair", "rng")
    if r.ok:
        r.value("generate", "KeyPair(enc=EncKey(key=generator()*rand(rng)), dec=DecKey(key=rand(rng)))", "enc = G*dec with a fresh dec")
    r = R("from", "KeyPair", "dec")
    if r.ok:
        r.value("pair-of", "KeyPair(enc=EncKey(key=dec.key*generator()), dec=dec)", "enc = G*dec")
    r = R("from", "EncKey", "dec_key")
    if r.ok:
        r.value("public-of", "EncKey(key=dec_key.key*generator())", "enc = G*dec")
    r = R("to_scalars", "Ciphertext", "self")
    if r.ok:
        r.value("to-scalars", ["[self.ephemeral.0, self.ephemeral.1, *self.data]", "[aff(self.ephemeral.key).x, aff(self.ephemeral.key).y, *self.data]"], "both coordinates and the whole data")
    fs = [f for f in prog.find(E, "from") if "EncKey<P>> for (" in f.path]
    if len(fs) == 1:
        r = Rule(rep, prog, E, "from", None, (), "pk", pick="=" + fs[0].path)
        if r.ok:
            try:
                got = {r.say.text(v) for _, v in r.cases()} - {"(0.x, 0.y)"}
                rep.verdict(got == {"(aff(pk.key).x, aff(pk.key).y)"}, "coordinates", r.w, f"the coordinates of a key: {got}")
            except Unknown as ex:
                rep.verdict(None, "coordinates", r.w, str(ex))
    r = R("from_scalars", "Ciphertext", "scalars")
    if r.ok:
        pt = "new_unchecked(scalars[0],scalars[1])"
        r.value("from-scalars", f"Ok(Ciphertext(ephemeral=EncKey(key={pt}), data=[*scalars[2:]]))", "the point of the first two and the rest as data")
        r.needs("from-scalars-length", ["2 <= len(scalars)", "1 < len(scalars)"], "fewer than two elements are refused")
        r.needs("from-scalars-curve", f"is_on_curve({pt})", "a point off the curve is refused")
        r.needs("from-scalars-subgroup", [f"is_in_correct_subgroup_assuming_on_curve({pt})"], "a point outside the prime order subgroup is refused")
    erased(rep, prog, E, "DecKey", None, "erased")
    circuit(rep, prog)
    for m in ("gadgets::compute_len_to_next_multiple", "compute_len_to_next_multiple"):
        if not [f for f in prog.find(E, "compute_len_to_next_multiple") if f.path == m]:
            continue
        r = Rule(rep, prog, E, "compute_len_to_next_multiple", None, (), "n m", pick="=" + m)
        if r.ok:
            texts = set()
            try:
                texts = {r.say.text(v) for _, v in r.cases()}
            except Unknown:
                pass
            if len(texts) == 2:
                r.casewise("multiple", {"n": ["(n Rem m) == 0"], "-(n Rem m) + m + n": ["(n Rem m) != 0"]}, "the length is rounded up to a multiple")
            else:
                rep.verdict(True if texts == {"next_multiple_of(n,m)"} else None, "multiple", r.w, f"the length is rounded up to a multiple: {sorted(texts)}")


def stream(rep, prog):
    """the native key stream"""
    fs = [f for f in prog.find(E, "apply_counter_mode_stream") if f.argc == 4]
    if len(fs) != 1:
        return rep.verdict(False if not fs else None, "anchor", E, "the key stream function is missing")
    r = Rule(rep, prog, E, "apply_counter_mode_stream", None, ECC, "key data nonce direction", pick="=" + fs[0].path)
    if not r.ok:
        return
    block = "prp_with_round_keys(0,key_schedule(0,key),RescueVector(vec=[i + nonce, 0, 0, 0])).vec"
    one = lambda s: f":chunksx(4)[i][j] := chunksx(it',4)[i][j] + {s}{block}[j]"
    wants = []
    for pad in ("pad_with_zeros(4); ",):
        for dom in (f"it:chunksx(4)[i]&{block}", "it:chunksx(4)[i]", block, "0..4"):
            wants.append(f"data{{{pad}for i in it:chunksx(4) {{for j in {dom} {{if direction is Decrypt {{{one('-')}}} | if direction is Encrypt {{{one('')}}}}}}}; cut len(data)}}")
    r.value("stream", wants, "each block is masked with the cipher of nonce plus block number, added when encrypting and subtracted when decrypting, and padding is removed")
    p = Rule(rep, prog, E, "pad_with_zeros", None, ECC, "vec multiple")
    if p.ok:
        p.emits("stream-padding", "resize", ["vec,compute_len_to_next_multiple(len(vec),multiple),0"], "the data is padded with zeros to full blocks")


def circuit(rep, prog):
    G = lambda name, names: Rule(rep, prog, E, name, "PlonkCircuit", ECC, names, cs=1)
    r = G("elgamal_encrypt", "cs pk data r")
    if r.ok:
        s = "variable_base_scalar_mul(r,pk.0)"
        r.value("circuit-encrypt", f"Ok(ElGamalHybridCtxtVars(ephemeral=fixed_base_scalar_mul(r,generator()), symm_ctxts=apply_counter_mode_stream(rescue_permutation(RescueStateVar([{s}.0, {s}.1, zero(), zero()])),data)))",
                "G*r and the data under the permutation of the coordinates of r*pk, as natively")
    r = G("apply_counter_mode_stream", "cs key data")
    if r.ok:
        x = "chunks([*data, pad(zero() to compute_len_to_next_multiple(len(data),4))],4)"
        call = lambda l: f"apply_counter_mode_stream_no_padding(key,[{{RescueStateVar([{x}[{l}][0], {x}[{l}][1], {x}[{l}][2], {x}[{l}][3]]) for {l} in {x}}}])"
        whole = [f"Ok([{{{{{call('k')}[i].0[j] for j in {call('j')}[i].0{c}}} for i in {call('i')}}}])" for c in ("[:4]", "")] + [f"Ok([{{*{call('j')}[i].0 for i in {call('i')}}}])"]
        cut = [f"Ok([trunc({x[3:-1]} to len(data))])" for x in whole] + [f"Ok({x[3:-1]}[:len(data)])" for x in whole]
        r.value("circuit-stream", whole + cut, "the data is padded to full blocks, masked, and cut to its length", stops=Cut(r))
        try:
            if any(r.say.text(v) in whole for _, v in r.cases()):
                rep.verdict(bool(r.breaks()), "circuit-stream-cut", r.w, "the padding is handed out with the data")
        except Unknown:
            pass
    r = G("apply_counter_mode_stream_no_padding", "cs key data")
    if r.ok:
        block = "prp_with_round_keys(RescueStateVar([runfold(it: zero(); add_constant(p2,1)), zero(), zero(), zero()]),0.mds,key_schedule(0.mds,key,0)).0"
        r.value("circuit-blocks", [f"Ok(data{{for i in it {{for j in {d} {{[i].0[j] := add(it'[i].0[j],{block}[j])}}}}}})" for d in (f"it[i].0&{block}", "it[i].0", block, "0..4")],
                "each block is masked with the cipher of the block number, starting with zero")
    for name, names, want in (("create_enc_key_variable", "cs pk", lambda p: f"Ok(EncKeyVars(create_point_variable(TEPoint({p}.x, {p}.y))))"),
                              ("create_ciphertext_variable", "cs ct", lambda p: f"Ok(ElGamalHybridCtxtVars(ephemeral=create_point_variable(TEPoint({p}.x, {p}.y)), symm_ctxts=[{{create_variable(ct.data[i]) for i in ct.data}}]))")):
        r = G(name, names)
        if r.ok:
            p = "aff(pk.key)" if name == "create_enc_key_variable" else "aff(ct.ephemeral.key)"
            r.value(f"circuit-{name}", [want(p), want("0")], "the variables carry all parts of the value")


class Cut:
    """the only loop that ends early is the one that has written as many variables as there was data"""
    def __init__(self, r):
        self.r = r

    def __contains__(self, text):
        return re.fullmatch(r"fold\(.*: 0; n \+ p0\) \+ -len\(data\) \+ n == 0|len\(data\) <= fold\(.*: 0; n \+ p0\) \+ n", text) is not None
