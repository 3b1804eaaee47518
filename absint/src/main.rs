mod ll; mod tm; mod val; mod exec; mod spec;
use exec::*; use tm::*; use val::*; use std::rc::Rc;
fn main(){
    let a: Vec<String> = std::env::args().collect();
    let m = ll::Module::load(&a[1]);
    let sh = Shared::new(m);
    if a[2] == "check" { std::process::exit(check(&sh, &a[3..])); }
    // absint IR func deg lo:hi ...
    let fname=&a[2]; let deg:usize=a[3].parse().unwrap();
    let mut n=0; let mut args=vec![]; let mut vars=vec![];
    for s in &a[4..] { if let Some((l,h))=s.split_once(':'){ let (l,h):(f64,f64)=(l.parse().unwrap(),h.parse().unwrap()); vars.push((l,h)); n+=1; args.push(None);} else if let Some(i)=s.strip_prefix("u"){ args.push(Some(V::I(I::c(32,i.parse().unwrap()))));} else if s=="out" {args.push(Some(V::Undef))} else {args.push(Some(V::F(cst(s.parse().unwrap()))));} }
    let cx=Ctx::new(n.max(1),deg);
    let mut st=St{bx:[(-1.0,1.0);4],full:true,refn:vec![],mem:vec![],forked:false,facts:vec![]};
    let mut e=Eng::new(&sh,&cx,50_000_000);
    e.trace=std::env::var("TRACE").is_ok();
    let mut k=0; let mut out=None;
    let argv:Vec<V>=args.into_iter().map(|x| match x {None=>{let (l,h)=vars[k]; let mid=0.5*(l+h); let rad=(h-mid).max(mid-l); let f=fin(&cx,None,l,h,false,1,Some(TM::lin(&cx,mid,k,rad)),mix(7,&[k as u128]),false); k+=1; V::F(f)}, Some(V::Undef)=>{let o=e.alloc(&mut st,64,false); out=Some(o); V::P(o,I::c(64,0))}, Some(v)=>v}).collect();
    let t=std::time::Instant::now();
    let r=e.call(fname,argv,st,0);
    println!("{} outcomes, {} steps, {:?}",r.len(),e.steps,t.elapsed());
    for (o,s) in &r { match o {Out::Ret(V::F(f))=>{println!("ret [{:e},{:e}] nan={} rem={:?} c0={:?} box={:?}",f.lo,f.hi,f.nan,f.tm.as_ref().map(|t|t.r),f.tm.as_ref().map(|t|t.c[0]),&s.bx[..n])}, Out::Ret(_)=>{println!("ret box={:?}",&s.bx[..n]); if let Some(o)=out { if let Some(Some(ob))=s.mem.get(o as usize){ for (k,(_,v)) in &ob.cells { if let V::F(f)=v {println!("  [{}] [{:e},{:e}] nan={} rem={:?}",k,f.lo,f.hi,f.nan,f.tm.as_ref().map(|t|t.r));}}}}}, o=>println!("{:?} box={:?}",o,&s.bx[..n])} }
    let _=Rc::new(0);
}

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o.push('"'); o }
fn num(x: f64) -> String { if x.is_finite() { format!("{x:e}") } else { format!("\"{x}\"") } }
/// absint IR check OUT.json [-j threads] [-t seconds] [-a] [-h horizon] SPEC...
fn check(sh: &Shared, a: &[String]) -> i32 {
    let (mut th, mut lim, mut all, mut hz, mut specs) = (8usize, 800.0f64, false, None, vec![]);
    let out = &a[0];
    let mut i = 1;
    while i < a.len() { match a[i].as_str() { "-j" => { th = a[i + 1].parse().unwrap(); i += 1; } "-t" => { lim = a[i + 1].parse().unwrap(); i += 1; } "-a" => all = true, "-s" => { let v: f64 = a[i + 1].parse().unwrap(); spec::SCALE.store(v.to_bits(), std::sync::atomic::Ordering::Relaxed); i += 1; } "-c" => { spec::CUT.store(a[i + 1].parse().unwrap(), std::sync::atomic::Ordering::Relaxed); i += 1; } "-h" => { hz = Some(a[i + 1].parse().unwrap()); i += 1; } s => specs.push(s.to_string()) } i += 1; }
    let t0 = std::time::Instant::now();
    let mut obs = vec![];
    for s in &specs { obs.extend(spec::parse(s)); }
    let r = spec::run(sh, &obs, th, lim, all, hz);
    let cov = sh.covered.lock().unwrap();
    let mut fs: std::collections::BTreeSet<String> = Default::default();
    for f in cov.iter() { fs.insert(short(f)); }
    let mut slow = r.stats.slow.clone(); slow.sort(); slow.reverse(); slow.truncate(40);
    let o = format!("{{\"obligations\":{},\"proved\":{},\"cells\":{},\"steps\":{},\"paths\":{},\"maxdepth\":{},\"undecided_pieces\":{},\"worst\":{},\"timeout\":{},\"wall\":{},\"functions\":[{}],\"cutoffs\":[{}],\"per\":{{{}}},\"slow\":[{}],\"violations\":[{}]}}",
        r.obligations, r.proved, r.stats.cells, r.stats.steps, r.stats.paths, r.stats.maxdepth, r.stats.undec, num(r.stats.worst), r.timeout, t0.elapsed().as_secs_f64(),
        fs.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), r.stats.cut.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
        r.stats.per.iter().map(|(k, v)| format!("{}:[{},{},{}]", js(k), v.0, v.1, num(v.2))).collect::<Vec<_>>().join(","),
        slow.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect::<Vec<_>>().join(","),
        r.viols.iter().map(|v| format!("{{\"line\":{},\"func\":{},\"args\":{},\"box\":[{}],\"what\":{},\"definite\":{},\"site\":{}}}", v.line, js(&v.func), js(&v.args), v.bx.iter().map(|b| format!("[{},{}]", num(b.0), num(b.1))).collect::<Vec<_>>().join(","), js(&v.what), v.definite, js(&v.site))).collect::<Vec<_>>().join(","));
    std::fs::write(out, o).unwrap();
    if !r.viols.is_empty() { 1 } else if r.timeout { 2 } else { 0 }
}
