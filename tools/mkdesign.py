import json,glob,os
V='/verif'
ms={os.path.basename(os.path.dirname(p)):json.load(open(p)) for p in sorted(glob.glob(V+'/seeded/*/meta.json'))}
miss={'e12-real-coincidence':'after adding complex energies to C12','e13-short':'after widening the coefficient range','e20-fixed-size':'after adding products of more than eight factors to C20','c05-empty-product':'after adding diagrams 18-21 (nothing left, no pole, empty product)','c21-mp-energy':'after adding complex energies to C21','d01-external-ignored':'after adding free-form integrands and diagrams 22, 23','d07-sign-chain':'after adding free-form multiple poles with other lines','d08-integer-power':'after raising the orders','d09-reuse':'after adding groups of several poles','d19-real-part':'after adding purely imaginary combinations','d26-coulomb':'after combining regulator, multiplicity three and the labels'}
t=['| seeded change | what is wrong | caught by |','|---|---|---|']
for i,m in ms.items():
    t.append('| %s | %s | %s%s |'%(i,m['what_it_breaks'],m['property'],' ('+miss[i]+')' if i in miss else ''))
s=open('/verif/tools/design.in.md').read().replace('@SEEDED@','\n'.join(t)).replace('@N@',str(len(ms)))
fx=['| property | commit | what failed |','|---|---|---|']
for k in json.load(open(V+'/known_findings.json'))['findings']: fx.append('| %s | %s | %s |'%(k['property'],k['commit'],k['what']))
s=s.replace('@FIXES@','\n'.join(fx))
open(V+'/DESIGN.md','w').write(s)
