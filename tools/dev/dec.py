import sys,re
d=sys.stdin.buffer.read()
d=re.sub(rb'\\x([0-9a-f][0-9a-f])',lambda m:bytes([int(m.group(1),16)]),d)
sys.stdout.buffer.write(d)
