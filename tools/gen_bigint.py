# generates the bigint.vt part with repeated proofs (add/sub/mul chains)
out=[]
F="crylib/src/big_int/unsigned.rs"
def carry_chain(name, op, ret, rhs, dbl=False):
    # op: add/sub ; ret True -> returns carry
    c = "b2i(carry)"
    cur="self.0@"
    o="old(self).0@"
    r = o if dbl else "rhs.0@"
    sgn = "+" if op=="add" else "-"
    inv=f"pv({cur}, ix0 as int) {sgn} {c} * pw(ix0 as int) == pv({o}, ix0 as int) {sgn} pv({r}, ix0 as int)"
    fin="final(self).0@"
    if ret:
        ens=f"val({fin}) {sgn} b2i(r) * pw(N as int) == val({o}) {sgn} val({r}),"
    else:
        ens=f"exists|c: bool| #[trigger] b2i(c) * pw(N as int) == val({o}) {sgn} val({r}) {'-' if op=='add' else '-'} val({fin})," if op=="add" else f"exists|c: bool| #[trigger] b2i(c) * pw(N as int) == val({fin}) - (val({o}) - val({r})),"
    y = "pre[i]" if dbl else "rhs.0@[i]"
    step = f"""
        proof {{
            let i = ix0 - 1;
            let p = pw(i);
            lemma_pw_pos(ix0 as int);
            lemma_pv_ext(self.0@, pre, i);
            let (lo, hi, x, y, c) = (self.0@[i] as int, b2i(carry), pre[i] as int, {y} as int, b2i(c0));
            assert(lo {sgn} hi * BB() == x {sgn} y {sgn} c);
            assert(lo * p {sgn} hi * (BB() * p) == x * p {sgn} y * p {sgn} c * p) by (nonlinear_arith)
                requires lo {sgn} hi * 0x1_0000_0000_0000_0000int == x {sgn} y {sgn} c, BB() == 0x1_0000_0000_0000_0000int;
        }}"""
    out.append(f"""
//@fn {F} UBigInt :: {name}
//@loops 1
//@spec
    ensures
        {ens}
//@loop 0
        invariant
            nx0 == N, ix0 <= N,
            {inv},
            forall|k: int| ix0 <= k < N ==> self.0@[k] == old(self).0@[k],
        decreases nx0 - ix0,
//@body-start 0
        let ghost pre = self.0@;
        let ghost c0 = carry;
//@body-end 0
{step}
//@exit
    {'' if ret else 'proof { assert(b2i(carry) * pw(N as int) == b2i(carry) * pw(N as int)); }'}
//@end
""")
out.append("""impl<const N: usize> UBigInt<N> {
//@rewrite super::carry_add ==>> carry_add
//@rewrite super::carry_sub ==>> carry_sub
//@rewrite super::carry_mul ==>> carry_mul
""")
carry_chain("overflowing_sub_assign","sub",True,"rhs")
carry_chain("overflowing_add_assign","add",True,"rhs")
carry_chain("add_assign","add",False,"rhs")
carry_chain("sub_assign","sub",False,"rhs")
carry_chain("double_assign","add",False,"",True)
out.append("}\n")
open('/verif/specs/bi_chain.vt','w').write("verus! {\n"+"".join(out)+"} // verus!\n")

# ---- value-returning forms and bit operations
out=[]
def w(s): out.append(s)
w("verus! {\nimpl<const N: usize> UBigInt<N> {\n")
def fn(name, spec, extra=""):
    w(f"//@fn {F} UBigInt :: {name}\n//@spec\n{spec}{extra}//@end\n")
fn("overflowing_sub","    ensures val(r.0.0@) - b2i(r.1) * pw(N as int) == val(self.0@) - val(rhs.0@),\n")
fn("overflowing_add","    ensures val(r.0.0@) + b2i(r.1) * pw(N as int) == val(self.0@) + val(rhs.0@),\n")
fn("add","    ensures exists|c: bool| #[trigger] b2i(c) * pw(N as int) == val(self.0@) + val(rhs.0@) - val(r.0@),\n")
fn("sub","    ensures exists|c: bool| #[trigger] b2i(c) * pw(N as int) == val(r.0@) - (val(self.0@) - val(rhs.0@)),\n")
fn("double","    ensures exists|c: bool| #[trigger] b2i(c) * pw(N as int) == val(self.0@) + val(self.0@) - val(r.0@),\n")
def mulchain(name, ret):
    ens = "val(final(self).0@) + r * pw(N as int) == val(old(self).0@) * digit," if ret else \
          "exists|c: int| 0 <= c <= 0xffff_ffff_ffff_ffff && #[trigger] (c * pw(N as int)) == val(old(self).0@) * digit - val(final(self).0@),"
    w(f"""//@fn {F} UBigInt :: {name}
//@loops 1
//@spec
    ensures {ens}
//@pre-loop 0
        proof {{ assert(0 * digit as int == 0); assert(0 * pw(0) == 0); }}
//@loop 0
        invariant
            nx0 == N, ix0 <= N,
            pv(self.0@, ix0 as int) + carry * pw(ix0 as int) == pv(old(self).0@, ix0 as int) * digit,
            forall|k: int| ix0 <= k < N ==> self.0@[k] == old(self).0@[k],
        decreases nx0 - ix0,
//@body-start 0
        let ghost pre = self.0@;
        let ghost c0 = carry;
//@body-end 0
        proof {{
            let i = ix0 - 1;
            let p = pw(i);
            lemma_pw_pos(ix0 as int);
            lemma_pv_ext(self.0@, pre, i);
            let (lo, hi, x, y, c) = (self.0@[i] as int, carry as int, pre[i] as int, digit as int, c0 as int);
            assert(lo + hi * BB() == x * y + c);
            assert(lo * p + hi * (BB() * p) == (x * p) * y + c * p) by (nonlinear_arith)
                requires lo + hi * BB() == x * y + c;
            let u = pv(old(self).0@, i);
            assert((u + x * p) * y == u * y + (x * p) * y) by (nonlinear_arith);
        }}
//@end
""")
mulchain("mul_digit_assign",False)
mulchain("overflowing_mul_digit_assign",True)
fn("mul_digit","    ensures exists|c: int| 0 <= c <= 0xffff_ffff_ffff_ffff && #[trigger] (c * pw(N as int)) == val(self.0@) * digit - val(r.0@),\n")
fn("overflowing_mul_digit","    ensures val(r.0.0@) + r.1 * pw(N as int) == val(self.0@) * digit,\n")
ops={"xor":"{a} ^ {b}","and":"{a} & {b}","or":"{a} | {b}","nor":"!({a} | {b})","xnor":"!({a} ^ {b})","nand":"!({a} & {b})"}
for n,e in ops.items():
    e1=e.format(a="old(self).0@[k]",b="rhs.0@[k]")
    w(f"""//@fn {F} UBigInt :: {n}_assign
//@loops 1
//@spec
    ensures forall|k: int| 0 <= k < N ==> #[trigger] final(self).0@[k] == {e1},
//@loop 0
        invariant
            nx0 == N, ix0 <= N,
            forall|k: int| 0 <= k < ix0 ==> #[trigger] self.0@[k] == {e1},
            forall|k: int| ix0 <= k < N ==> self.0@[k] == old(self).0@[k],
        decreases nx0 - ix0,
//@end
""")
    fn(n,"    ensures forall|k: int| 0 <= k < N ==> #[trigger] r.0@[k] == "+e.format(a="self.0@[k]",b="rhs.0@[k]")+",\n")
w(f"""//@fn {F} UBigInt :: not_assign
//@loops 1
//@spec
    ensures forall|k: int| 0 <= k < N ==> #[trigger] final(self).0@[k] == !old(self).0@[k],
//@loop 0
        invariant
            nx0 == N, ix0 <= N,
            forall|k: int| 0 <= k < ix0 ==> #[trigger] self.0@[k] == !old(self).0@[k],
            forall|k: int| ix0 <= k < N ==> self.0@[k] == old(self).0@[k],
        decreases nx0 - ix0,
//@end
""")
fn("not","    ensures forall|k: int| 0 <= k < N ==> #[trigger] r.0@[k] == !self.0@[k],\n")
w(f"""//@fn {F} UBigInt :: and_bool_assign
//@loops 1
//@spec
    ensures forall|k: int| 0 <= k < N ==> #[trigger] final(self).0@[k] == if rhs {{ old(self).0@[k] }} else {{ 0 }},
        rhs ==> val(final(self).0@) == val(old(self).0@), !rhs ==> val(final(self).0@) == 0,
//@entry
        proof {{
            assert forall|x: u64| #[trigger] (x & 0xffff_ffff_ffff_ffffu64) == x by {{ assert(x & 0xffff_ffff_ffff_ffffu64 == x) by (bit_vector); }}
            assert forall|x: u64| #[trigger] (x & 0u64) == 0 by {{ assert(x & 0u64 == 0) by (bit_vector); }}
        }}
//@loop 0
        invariant
            nx0 == N, ix0 <= N, mask == (if rhs {{ 0xffff_ffff_ffff_ffffu64 }} else {{ 0u64 }}),
            forall|x: u64| #[trigger] (x & 0xffff_ffff_ffff_ffffu64) == x, forall|x: u64| #[trigger] (x & 0u64) == 0,
            forall|k: int| 0 <= k < ix0 ==> #[trigger] self.0@[k] == if rhs {{ old(self).0@[k] }} else {{ 0 }},
            forall|k: int| ix0 <= k < N ==> self.0@[k] == old(self).0@[k],
        decreases nx0 - ix0,
//@exit
        proof {{ if rhs {{ lemma_pv_ext(self.0@, old(self).0@, N as int); }} else {{ lemma_pv_zero(self.0@, N as int); }} }}
//@end
""")
fn("and_bool","    ensures rhs ==> val(r.0@) == val(self.0@), !rhs ==> val(r.0@) == 0,\n")
fn("shift_left","    requires N > 0,\n    ensures val(r.0@) + hi_part(self.0@[N - 1], rhs % 64) * pw(N as int) == val(self.0@) * pow2((rhs % 64) as nat),\n")
fn("shift_right","    requires N > 0,\n    ensures val(r.0@) == val(self.0@) / (pow2((rhs % 64) as nat) as int),\n")
w(open('/verif/specs/bi_misc.in').read())
w("}\n} // verus!\n")
open('/verif/specs/bi_ops.vt','w').write("".join(out))
