# collect.py OUT: from the lines of g to oracle/data/limbs.json
import json,sys
from prep import ps
out=[]
for l in open(sys.argv[1]):
    t,n,why=l.split(); t=int(t); n=int(n,16); s,idx,d=ps[t]
    cc=bytearray(32); cc[8:16]=n.to_bytes(8,'big'); cc[24:32]=t.to_bytes(8,'big')
    out.append({'Parent':(bytes.fromhex('0488ade4')+bytes(9)+cc+b'\0'+s).hex(),'Index':idx,'Why':why})
json.dump(out,open('../../oracle/data/limbs.json','w'),indent=1)
