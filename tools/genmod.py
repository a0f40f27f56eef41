import glob,re,os
d=os.path.join(os.path.dirname(__file__),'../harness/src/props')
ids=sorted(re.findall(r'c(\d\d)\.rs',' '.join(glob.glob(d+'/c*.rs'))))
open(d+'/mod.rs','w').write('use crate::common::C;\n\n'+''.join(f'pub mod c{i};\n' for i in ids)+'\npub fn run(c: &C) -> bool {\n    match c.id.as_str() {\n'+''.join(f'        "C{i}" => c{i}::run(c),\n' for i in ids)+'        _ => return false,\n    }\n    true\n}\n')
