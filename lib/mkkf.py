import json,subprocess
prop={'need memory that can run':'C15','insert nothing and tell why':'C15','could not all be stored':'C15','fails to grow':'C15','runs out of memory must':'C15',"dates that don't exist":'C25','COUNT that is not':'C17','which column doesn':'C17','conditions that can':'C17','anything but raw values':'C17','NOT NULL and VARCHAR length':'C11','aliased tables too':'C11','NOT and EXISTS':'C05','keys declared before':'C12','CREATE TABLE that fails':'C12','must be reported with a message':'C17','aliases of what has no':'C17','LIMIT must':'C17','that has an alias':'C17','IN and IS NULL conditions without':'C17','with a single operand':'C17','rather than abort':'C17','quoted names must':'C11','release its text':'C15','has its memory released twice':'C17','joining a third':'C07','GROUP BY':'C08','COUNT(*)':'C08','long table and column names':'C07','too many columns':'C07','column name in common':'C07','runs out of memory':'C15','INSERT arithmetic':'C10','cursor':'C09','modulo':'C10','NULL term':'C10','expression':'C10','integer literals':'C18','loat literal':'C18','float':'C18','empty string':'C18','string':'C18','quote':'C18','yyerror':'C17','token':'C17','carriage':'C17','parser':'C17','syntax':'C17','VARCHAR lengths':'C12','B-tree':'C19','NULL VARCHAR':'C13','vacuum of':'C13','removing a column':'C14','failed add':'C14','a column that could not':'C14','adding a VARCHAR':'C14','integer comparisons':'C02','comparing a column with itself':'C02',"'value <op>":'C02','IN must':'C02','SELECT':'C04','two invalid':'C04','updating a row':'C13'}
extra=json.load(open('/verif/known_findings.json'))['findings'] if __import__('os').path.exists('/verif/known_findings.json') else []
known=[f for f in extra if f['status']=='known']
over={f['commit']:f['property'] for f in extra if f['status']=='fixed'}
out=[]
for l in subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','72016e3..'],stdout=-1,text=True).stdout.splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    p=over.get(h) or next((v for k,v in prop.items() if k in s),None)
    if p is None: print('no property for',l); p='C??'
    out.append(dict(status='fixed',property=p,commit=h,what=s[5:],entry='fixed: property=%s %s %s'%(p,h,s[5:])))
json.dump({'findings':known+out},open('/verif/known_findings.json','w'),indent=1)
