import re,glob
mods=[]
out=[]
for f in ['route','serve','param','chain','app','form','json','fs','table','life','scale']:
    try: s=open(f'/verif/harness/src/{f}.rs').read()
    except: continue
    mods.append(f)
    out+= [f'    {f}::{n},' for n in re.findall(r'pub fn (harness_\w+)\(',s)]
s='''//! Harnesses over the real crate. Each one is executed symbolically from the IR and
//! natively (replay) from the same source.
pub mod rt;
pub mod util;
'''+''.join(f'pub mod {m};\n' for m in mods)+'''
macro_rules! harnesses {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $(#[no_mangle] pub extern "C-unwind" fn $f() { $m::$f() })*
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($f), $f)),*];
    };
}
harnesses! {
'''+'\n'.join(out)+'\n}\n'
open('/verif/harness/src/lib.rs','w').write(s)
