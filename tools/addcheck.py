import sys
pid, body = sys.argv[1], sys.stdin.read()
p='/verif/bin/checks.py'; s=open(p).read().rstrip(); assert s.endswith('}')
assert '"%s"'%pid not in s
s=s[:-1]+'    "%s": {\n'%pid+''.join('        '+l+'\n' for l in body.strip().split('\n'))+'    },\n}\n'
open(p,'w').write(s)
