"""Appends the fixed: lines of KNOWN_FINDINGS.jsonl from the fix commits of /repo and this table."""
import os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'KNOWN_FINDINGS.jsonl')
PROP = '''C01 2cca51b a823811
C02 e64f11a 7aa6841 fefc941
C03 8b58f1f
C04 a2e4d8b 26faf3f 1481ccf 762de8c
C05 3c72528 8b52a17 0c8aa59
C06 89a0e04 ca1e5b5 7f168ee 1c41b43
C08 1c2726b d7d8a9a 5245df4
C09 29aeda1 1d09c8a bb1410e ed0170a b1d99dd f590d21 bb16a60 1c38f62 e7752bd cfecb75
C12 c69ef9e cfc9a77 7be5c2b
C11 a67cb15 b2ba28a
C13 7c923d8 85c774e 47003fd
C14 fe6f582 8e724ae 46ccb53
C15 64c2e60 dd3059f 0725688 3335b48
C16 45e9807
C17 494c77c
C18 28f1d8b
C19 a77ff1d 4fbc814 0a7f909 e0734c1 2559967 d4ba164 f448667 250c7e3
C20 839e4fd
C21 8c362b8 46b47ba f5e26c2 14eeeab 3ce5ae5
C22 6f04384 4ee71dd 2e11bc2
C24 4b3ce76 8884aaf 4957432
C25 b0657d7 5d8d4d0 630507a
C26 c7cbcd3 0fc96fd 43e99bb'''
prop = {c: line.split()[0] for line in PROP.splitlines() for c in line.split()[1:]}
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout
out = [line for line in open(V).read().splitlines() if not line.startswith('fixed:')]
for line in log.splitlines():
    h, msg = line.split(' ', 1)
    if msg.startswith('fix: '):
        out.append('fixed: property=%s %s %s' % (prop[h], h, msg[5:]))
open(V, 'w').write('\n'.join(out) + '\n')
