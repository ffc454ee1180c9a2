import sys,re
s=open(sys.argv[1]).read()
s=re.sub(r'"""(.|\n)*?"""','',s)
lines=[l.rstrip() for l in s.split('\n')]
lines=[l for l in lines if l.strip() and not l.strip().startswith('#')]
a=int(sys.argv[2]) if len(sys.argv)>2 else 0
b=int(sys.argv[3]) if len(sys.argv)>3 else len(lines)
print('\n'.join(lines[a:b]))
