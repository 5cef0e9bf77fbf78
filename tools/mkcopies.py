# writes spec/copies.spec: the contracts of Copy and CopyConstruct are the same apart from the error result
import os
head = open(os.path.join(os.path.dirname(__file__), 'copies.head')).read()
body = open(os.path.join(os.path.dirname(__file__), 'copies.body')).read()
out = head
for m, r, e in (('Copy', '(c)', 'true'), ('CopyConstruct', '(c, err)', 'err == nil')):
    out += body.replace('${M}', m).replace('${R}', r).replace('${E}', e).replace('${KX}', '' if m == 'Copy' else '  ensures [content] isMK(k) ==> cck(k, c) && fresh(ref(c)) && fresh(ky(c).keys) && keysOk(ky(c).keys)\n').replace('${VX}', '' if m == 'Copy' else '  ensures [content] isSMV(v) ==> ccv(v, c) && fresh(ref(c))\n')
open(os.path.join(os.path.dirname(__file__), '..', 'spec', 'copies.spec'), 'w').write(out)
