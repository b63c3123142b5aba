"""Expands a per-width template: python3 gen_n.py IN OUT n...
`@into K` lines become `impl VxInto<UBigInt<K>> for [u64; K]`, once per K."""
import sys
s = open(sys.argv[1]).read()
out = []
seen = set()
for n in sys.argv[3:]:
    n = int(n)
    t = s.replace("@N@", str(n)).replace("@M@", str(2 * n)).replace("@K@", str(n + 1)).replace("@BY@", str(8 * n))
    for l in t.split("\n"):
        if l.startswith("@into "):
            k = l[6:].strip()
            if k in seen:
                continue
            seen.add(k)
            l = f"""impl VxInto<UBigInt<{k}>> for [u64; {k}] {{
    open spec fn vx_into_spec(self) -> UBigInt<{k}> {{ UBigInt(self) }}
    fn vx_into_exec(self) -> (r: UBigInt<{k}>) {{ UBigInt(self) }}
}}"""
        out.append(l + "\n")
open(sys.argv[2], "w").write("".join(out))
