# list all func names / lemmas of a spec file
python3 - "$1" <<'P'
import re,sys
src="\n"+open(sys.argv[1]).read()
while True:
    m=re.search(r'\nforeach ([^\n]*)\n(.*?)\nendforeach',src,re.S)
    if not m: break
    names,tups=m.group(1).split(' in ',1)
    names=[n.strip() for n in names.split(',')]
    out=''
    for t in re.findall(r'\(([^)]*)\)',tups):
        b=m.group(2)
        for n,v in zip(names,t.split(',')): b=b.replace('${%s}'%n,v.strip())
        out+='\n'+b+'\n'
    src=src[:m.start()]+out+src[m.end():]
for l in src.split('\n'):
    m=re.match(r'(func|iface) (\S+?\S*?)\((?!\*)',l)
    m=re.match(r'(func|iface) ((?:\w+\.)(?:\(\*?\w+\)\.)?\w+(?:\.\w+)?)\(',l)
    if m: print(m.group(2))
    m=re.match(r'lemma (\w+)',l)
    if m: print(m.group(1))
    m=re.match(r'rec (\w+)',l)
    if m: print('rec:'+m.group(1))
P
