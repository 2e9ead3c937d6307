import json,subprocess
m={'e5757c0':'C01','c7fa2bb':'C01','534118e':'C02','fb9c127':'C01','41d8b6e':'C04','80568b9':'C03','0bd40f1':'C09','6edb466':'C09','738b61a':'C10','f833259':'C10','2cca885':'C14','0399360':'C13','5ff019e':'C10','281399e':'C29','f8600ba':'C29','2bdee16':'C19','772a4e3':'C19','a1ad85c':'C19','ff2e20c':'C16','0a7ecc9':'C16','83209b7':'C15','5f843ec':'C16','6a96850':'C18',
   '36d97dd':'C23','c21f656':'C20','9466588':'C20','de85c9b':'C20','3b18a59':'C22','891826b':'C20','443508b':'C20','8fe2c0b':'C22','c2248e6':'C22','718c450':'C22',
   '75b6067':'C21','5b3fd33':'C21','43f7427':'C31','fa37dcd':'C24','989f9ee':'C07','41ceb9c':'C27','4ab20f7':'C26','a3bf1ba':'C28','7dd91cb':'C32','535a483':'C30','fe029e9':'C30','00aed79':'C30','bc198c1':'C21',
   '48489dc':'C33','16e690c':'C34','23ed277':'C35','0456bad':'C35','94416bb':'C35','94981fe':'C25','013c2ae':'C11'}
L=subprocess.check_output(['git','-C','/repo','log','--format=%h %s','--reverse'],text=True).splitlines()
old=json.load(open('/verif/known_findings.json'))
f=[x for x in old['findings'] if x.get('status')=='open']
for l in L:
    h,s=l.split(' ',1)
    if s.startswith('fix: '):
        p=m.get(h)
        if not p: print('no property for',l); continue
        f.append({"status":"fixed","property":p,"commit":h,"what":s[5:],"line":"fixed: property=%s %s %s"%(p,h,s[5:])})
json.dump({"findings":f},open('/verif/known_findings.json','w'),indent=1)
