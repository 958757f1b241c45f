import subprocess,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP=[("serialization of complex matrices","C05"),("de_serialize skipped the payload","C05"),("de_serialize truncated strings","C05"),("de_serialize read past","C05"),
("compare_content never ended","C04"),("compare_content compared reals","C04"),("matrix element access accepted","C14"),("copies and assignments kept","C03"),
("conversions to integer types","C10"),("copyto_vec_complex refused","C10"),("promote_to_vector used","C11"),("promotions to matrices wrote","C11"),("promotions to matrices refused","C11"),
("map lookups ignored","C13"),("const operator[] added","C13"),("typed access to an empty","C02"),("get_*_at reset","C11"),("get_number_at and","C02"),("get_*_at(i,j) on an empty","C14"),
("get_if_exists read booleans","C13"),("push on an empty","C11"),("unsigned values that","C01"),("mat_type::data on an empty","C14"),("get_mat_complex refused","C11"),("collapse threw","C12"),("copyto_mat_complex refused","C14")]
exec(open(H+'/tools/fixmap_extra.py').read()) if os.path.exists(H+'/tools/fixmap_extra.py') else None
out=[]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    s=s[5:]; m=[p for k,p in sorted(MAP,key=lambda x:-len(x[0])) if s.startswith(k)][:1]
    assert len(m)==1,(s,m)
    out.append('fixed: property=%s %s %s'%(m[0],h,s))
head="# Genuine defects found by the checks.\n# 'known:' entries are recorded, not repaired; 'fixed:' entries were repaired by the named /repo commit and suppress nothing.\n"
kn=H+'/tools/known_src.txt'
known=open(kn).read() if os.path.exists(kn) else ''
open(H+'/known_findings.txt','w').write(head+known+'\n'.join(out)+'\n')
