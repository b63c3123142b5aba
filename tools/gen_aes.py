"""Instantiates aescore.in for the three key sizes; writes specs/aescore.vt."""
s = open('/verif/specs/aescommon.vt').read()
impl = open('/verif/specs/aescore.in').read()
out=s
for T,K,R in (('Aes128',4,11),('Aes192',6,13),('Aes256',8,15)):
    out+=impl.replace('@T@',T).replace('@K@',str(K)).replace('@R@',str(R)).replace('@W@',str(4*R)).replace('@B@',str(4*K))
open('/verif/specs/aescore.vt','w').write(out+"} // verus!\n")
