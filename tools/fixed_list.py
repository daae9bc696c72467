import subprocess, json
log=[l.split(' ',1) for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','934825a..HEAD'],text=True).splitlines()]
rng=[('fb14e40','C03'),('cfe4840','C03'),('05f9e03','C03'),('fcbe10c','C04'),('ef8fcb6','C03'),('4929e30','C02'),('ac4eb2d','C05'),('8c622a6','C01'),
('d34b656','C02'),('4034b77','C01'),('c2ac71c','C06'),('b4532c6','C01'),('2c077e5','C06'),('e89df36','C01'),('a711620','C06'),('4fb4360','C02'),('7d10e9a','C03'),
('fdafd5c','C07'),('fea679a','C08'),('fe5f8c1','C09'),('39e1074','C07'),('f606218','C11'),('863fb9b','C14'),('cb9a1a6','C10'),('e3e8be6','C13'),
('15daa5b','C12'),('e0398b5','C13'),('aaae076','C15'),('d794137','C11'),('9eb556c','C14'),('977a536','C12'),('932a00a','C15'),('832189f','C16'),('0fede80','C17'),
('b483ac1','C18'),('4b1b570','C19'),('0e08981','C20'),('104f554','C21'),('96f8e19','C22'),('7fb773c','C23'),('088c756','C24'),('51d6e25','-'),('d696d46','C25'),('e5529f6','C26'),('3aa9812','C25'),('43af428','C13'),('a3bfaf3','C04'),('2d02539','C26'),('2c1bfa9','C10'),('524f399','C22'),('052b56e','C18'),('b1f586c','C01'),('5dd45b5','C02'),('534e734','C06'),('9f5de7b','C06'),('b9de8b0','C04'),('ec4e982','C10'),('d12b366','C16'),('3d50155','C13'),('2fe7067','C15'),('d33c356','C03'),('8fffaa7','C02'),('cb658e1','C03'),('97d26fb','C03'),('8b02421','C02'),('174d34b','C07'),('5b51580','C07'),('e8d4248','C08'),('5e92f87','C14'),('7bc737b','C14'),('afe05e5','C12'),('86875a7','C13'),('1771633','C13'),('be98e48','C13'),('bdedea8','C18'),('d795f6a','C18'),('a8d8abc','C18'),('fb08e1d','C19'),('33ab3ca','C19'),('68c4130','C17'),('041a603','C24'),('f4a2d19','C21'),('1ac1388','C21'),('2d09e53','C22'),('895182b','C22'),('e012cd8','C25'),('54a8dac','C25'),('3551fad','C10'),('b6852da','C08'),('7ae20a6','C27'),('b08a137','C27'),('c277190','C28'),('078c034','C11'),('0d69e75','C13'),('ae03c9b','C16'),('df51197','C12'),('88830a4','C12'),('b435c40','C03'),('edd462f','C03'),('7110341','C12'),('3909e15','C13'),('8658626','C06'),('223dcd4','C08')]
d=dict(rng); cur=None; out=[]
for h,s in log:
    cur=d.get(h,cur)
    s=s[5:]
    if cur=='-': continue
    out.append('fixed: property=%s %s %s'%(cur,h,s))
k=json.load(open('/verif/known_findings.json')); k['fixed']=out
json.dump(k,open('/verif/known_findings.json','w'),indent=1)
print('\n'.join(out[-20:]))
