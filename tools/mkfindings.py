"""Writes /verif/known_findings.json (findings kept by hand; fixed entries from the fix: commits of /repo)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {}
for line in '''C07 30f8bc8
C27 5d42654 b71fa6e f5184f5 30e967d 20838f9
C05 5235fb2 26bf872 d0dd1da 335b826 5ddb727 b18fcd4 12e8885 57d1f71 a0120f3 a8f7edb 0521449
C04 c5b319e e9e5b42 51af129 b1821aa f5f8b91 3e3bef4 589a9aa c150601 4bb03c5 b34604e
C08 c0b757f
C07 fe434ad ae8befd 173a19d 3acdc26 c60c841 be28fea a34395f 0bac281 5aec4b4 7977209 58ab038 e1293ff 3b07d27 5d8b67d
C12 52de70e 0cd3bdd e9e2456
C15 5642765 2ed5254
C23 bffa203
C21 0bcf3e5
C14 4a34c2f
C02 0f91c26
C10 ddeeb65
C19 3a1e79f 19b94c5
C16 061bc59
C18 797a20b
C18 7a09c1d
C20 a3623ac cb67a25
C11 109a17c
C17 00631f3 05d4489 585c64a 3fb3909 0c1ddec 271ed78 fe7a03b d36f571 19c3010 2f1c732
C03 65c7941 97d36e8
C22 ff00bb9
C19 58b1740 d6d1f18 db4484d cac198f 84a38aa 2f98eaa'''.splitlines():
    p, *hs = line.split()
    for h in hs:
        MAP[h] = p
FINDINGS = [
    {'id': 'F1', 'property': 'C17', 'match': 'HappyCat/sum-of-powers',
     'what': 'HappyCat evaluates sum_i |x_i^2 - D|^alpha (a sum of powers) where its documentation and the literature define |sum_i x_i^2 - D|^alpha, '
             'so the documented optimum 0 at (-1,...,-1) is not attained for D > 1; the existing test pins the value of the wrong formula, '
             'so it cannot be repaired without editing tests'},
]


def main():
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
    fixed = []
    for l in log:
        h, s = l.split(' ', 1)
        if s.startswith('fix: '):
            assert h[:7] in MAP, l
            fixed.append('fixed: property=%s %s %s' % (MAP[h[:7]], h, s[5:]))
    with open(os.path.join(HERE, 'known_findings.json'), 'w') as fh:
        json.dump({'findings': FINDINGS, 'fixed': fixed}, fh, indent=1)
    print(len(fixed), 'fixed')


if __name__ == '__main__':
    main()
