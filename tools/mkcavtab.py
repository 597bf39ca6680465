"""One-off: transcribed the published fit coefficients of the built-in cavities into lib/cavtab.py (committed; not run by checks)."""
import re, pprint
src = open('/repo/src/rf_cavity.cpp').read()
a = src.index('void ElementRFCavity::TransitFacMultipole'); b = src.index('static\ndouble GetCavPhase', a)
t = src[a:b]
tab = {}
parts = re.split(r'flabel == "(\w+)"', t)
for i in range(1, len(parts), 2):
    lab, body = parts[i], parts[i+1]
    for m in re.finditer(r'case (\d):\s*T = PwrSeries\(CaviIonK,([^)]*)\);\s*S = PwrSeries\(CaviIonK,([^)]*)\);', body):
        f = lambda s: [float(x) for x in s.replace('\n', ' ').split(',')]
        tab[(lab, int(m.group(1)))] = (f(m.group(2)), f(m.group(3)))
for v in tab.values(): assert len(v[0]) == 10 and len(v[1]) == 10, v
print(len(tab))
open('/verif/lib/cavtab.py','w').write('# transit-time-factor fits of the built-in cavities: (multipole, cavity) -> (T coefficients, S coefficients), powers 0..9 of k\nMLP = ' + pprint.pformat(tab, width=150) + '\n')
