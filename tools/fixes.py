import subprocess,json
M={'c1d1efa':'C11','9101920':'C23','e99d988':'C18','225dc4b':'C08','d833027':'C20','acce9f6':'C20','3e566ca':'C20','16bf903':'C20','68d530d':'C20','6973bb3':'C05','2802e03':'C06','81abda0':'C22','c2742f4':'C23','d94d0c3':'C10','44f3041':'C23','15d29ff':'C15','60484cb':'C08','dd0ba83':'C15','0548e65':'C05','81cd0c6':'C04','8744d9d':'C04','ae33e89':'C04','ba18072':'C01','1a3e78c':'C01','0a3ab88':'C03','8e89ee4':'C03','bd6e270':'C05','cf1d184':'C06','371dc5e':'C05','0d35d52':'C05','17990d1':'C15','56475f7':'C02','787a4eb':'C05','efc8a4c':'C21','d11e706':'C02','b9991e6':'C09','3fade17':'C08','3281b74':'C14','f08ca95':'C14','c22a943':'C15','e85af39':'C20','2be754f':'C20','795d42a':'C15','0027e5c':'C13','9b51d63':'C19','bb24821':'C10','162d6e6':'C11','14bca3e':'C11','798a9ce':'C11','52c87e7':'C12','67762a8':'C12','76cff95':'C21','099e61e':'C04','4e80936':'C20','5c45739':'C20','dde7b04':'C20','3a7e456':'C16','148e613':'C23','b81b251':'C16','34752aa':'C16','7fac469':'C17','4d5e6f8':'C17','fa81d31':'C18','2dfb6cb':'C18','bf0682c':'C18','2215e90':'C18','f3e87a2':'C07','bf54b41':'C17','106bdd9':'C19','d4b7369':'C17','d538f44':'C19','0108e3c':'C12','ec9d3d5':'C12','66cdbef':'C04','2bac8e8':'C10','e91fb7d':'C10','7fb0286':'C12','1882b4d':'C19','6f918a3':'C21','3aeeee6':'C21','eb5864d':'C13','6f1594e':'C14','e90ea2e':'C06','d4e6db0':'C20','af39b90':'C07','3cb301c':'C06','af4fd1f':'C06','29376b4':'C21','2177398':'C08','9a5d48a':'C14','864c0c4':'C08','a79bcb6':'C08','81feabc':'C21','5a9ba22':'C15','440bb9a':'C15','5588a71':'C17','59cedc1':'C16','434e845':'C23','2ab690f':'C16','6a80299':'C16','e323076':'C17','6d42bcb':'C24','48c90f2':'C20','38971bb':'C20','e6adff9':'C21','20b4e3d':'C21','561674a':'C21','e4bf557':'C21','54d4f38':'C22','b719f90':'C22','9b7fb9d':'C22'}
out=[]
for c in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h%x09%s','ef9d872..HEAD'],text=True).splitlines():
    h,s=c.split('\t',1)
    if not s.startswith('fix:'): print('skip',c); continue
    h=h[:7]
    p=M.get(h)
    if not p: print('??',c); continue
    out.append(dict(property=p,status='fixed',commit=h,what=s[5:],line='fixed: property=%s %s %s'%(p,h,s[5:])))
try:
    old=[json.loads(l) for l in open('/verif/known_findings.jsonl')]
except Exception: old=[]
out+= [d for d in old if d['status']=='known']
open('/verif/known_findings.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in out))
print(len(out))
