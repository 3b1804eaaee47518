//! Lazy parser for the textual LLVM IR that rustc emits for the harness crate.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F64,
    F32,
    Ptr,
    Arr(usize, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(usize, Box<Ty>),
    Other,
}
impl Ty {
    pub fn align(&self) -> usize {
        match self {
            Ty::Int(w) => ((*w as usize + 7) / 8).next_power_of_two().min(16),
            Ty::F64 | Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.size()).next_power_of_two().max(1),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Ty::Int(w) => ((*w as usize + 7) / 8).next_power_of_two(),
            Ty::F64 | Ty::Ptr => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f {
                    if !*p { let a = t.align(); o = (o + a - 1) / a * a; }
                    o += t.size();
                }
                if !*p { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> (usize, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*p { let a = t.align(); o = (o + a - 1) / a * a; }
                    if k == i { return (o, t.clone()); }
                    o += t.size();
                }
                (0, Ty::Other)
            }
            _ => (0, Ty::Other),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Slot(usize),
    CI(u32, u64),
    CF(f64),
    Null,
    Undef,
    Zero,
    Global(String, i64),
    IntPtr(u64),
    Agg(Vec<(Ty, Op)>),
    Meta,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(String, Ty, Op, Op),
    FNeg(Op),
    FCmp(String, Op, Op),
    ICmp(String, Ty, Op, Op),
    Select(Op, Ty, Op, Op),
    Phi(Ty, Vec<(Op, usize)>),
    Br(usize),
    CondBr(Op, usize, usize),
    Switch(u32, Op, usize, Vec<(u64, usize)>),
    Ret(Option<(Ty, Op)>),
    Unreachable,
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Gep(Ty, Op, Vec<(Ty, Op)>),
    Cast(String, Ty, Op, Ty),
    Call(String, Ty, Vec<(Ty, Op)>),
    Extract(Op, Vec<usize>),
    Insert(Ty, Op, Ty, Op, Vec<usize>),
    Alloca(usize),
    Freeze(Op),
    Unknown(String),
}
#[derive(Clone, Debug)]
pub struct Instr {
    pub dst: Option<usize>,
    pub ins: Ins,
    pub dbg: u32,
}
#[derive(Debug)]
pub struct Block {
    pub ins: Vec<Instr>,
    pub nphi: usize,
    pub succ: Vec<usize>,
    pub npred: usize,
    pub order: usize,
    /// head of an outermost loop
    pub outer_head: bool,
    pub live: Vec<usize>, // live slots after phis
    pub in_loop: bool,
    /// per successor: does the edge leave the innermost loop around this block
    pub exits: Vec<bool>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(Ty, usize)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nslots: usize,
    /// slots (of double type) whose bit pattern is split into exponent / mantissa somewhere
    pub bits_split: Vec<bool>,
}

pub struct Module {
    text: &'static str,
    funcs: HashMap<&'static str, (usize, usize)>,
    decls: HashMap<&'static str, &'static str>,
    globals: HashMap<&'static str, &'static str>,
    aliases: HashMap<String, String>,
    attrs: HashMap<u32, &'static str>,
    meta: HashMap<u32, &'static str>,
    types: HashMap<&'static str, &'static str>,
}

// ---------------------------------------------------------------- lexer
struct Lx<'a> {
    s: &'a [u8],
    p: usize,
}
#[derive(Clone, Debug, PartialEq)]
enum Tk {
    W(String),
    L(String),
    G(String),
    M(String),
    S(Vec<u8>),
    P(u8),
    End,
}
impl<'a> Lx<'a> {
    fn new(s: &'a str) -> Self { Lx { s: s.as_bytes(), p: 0 } }
    fn ws(&mut self) {
        while self.p < self.s.len() {
            if (self.s[self.p] as char).is_ascii_whitespace() { self.p += 1; }
            else if self.s[self.p..].starts_with(b"/*") { while self.p < self.s.len() && !self.s[self.p..].starts_with(b"*/") { self.p += 1; } self.p += 2; }
            else { break; }
        }
    }
    fn peek(&mut self) -> Tk { let p = self.p; let t = self.next(); self.p = p; t }
    fn name(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            self.p += 1;
            let st = self.p;
            while self.s[self.p] != b'"' { self.p += 1; }
            let r = String::from_utf8_lossy(&self.s[st..self.p]).into_owned();
            self.p += 1;
            return r;
        }
        let st = self.p;
        while self.p < self.s.len() && (self.s[self.p].is_ascii_alphanumeric() || b"._$-".contains(&self.s[self.p])) { self.p += 1; }
        String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
    }
    fn next(&mut self) -> Tk {
        self.ws();
        if self.p >= self.s.len() { return Tk::End; }
        let c = self.s[self.p];
        match c {
            b';' => { self.p = self.s.len(); Tk::End }
            b'%' => { self.p += 1; Tk::L(self.name()) }
            b'@' => { self.p += 1; Tk::G(self.name()) }
            b'!' => { self.p += 1; Tk::M(self.name()) }
            b'"' => { let n = self.name(); Tk::S(n.into_bytes()) }
            b'c' if self.p + 1 < self.s.len() && self.s[self.p + 1] == b'"' => {
                self.p += 2;
                let mut v = vec![];
                while self.s[self.p] != b'"' {
                    if self.s[self.p] == b'\\' && self.s[self.p + 1] == b'\\' {
                        v.push(b'\\');
                        self.p += 2;
                    } else if self.s[self.p] == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                        v.push(u8::from_str_radix(h, 16).unwrap());
                        self.p += 3;
                    } else { v.push(self.s[self.p]); self.p += 1; }
                }
                self.p += 1;
                Tk::S(v)
            }
            b'(' | b')' | b'[' | b']' | b'{' | b'}' | b'<' | b'>' | b',' | b'=' | b'*' | b'#' | b':' | b'|' => { self.p += 1; Tk::P(c) }
            b'.' if self.s[self.p..].starts_with(b"...") => { self.p += 3; Tk::W("...".into()) }
            _ => {
                let st = self.p;
                while self.p < self.s.len() && (self.s[self.p].is_ascii_alphanumeric() || b"._$-+".contains(&self.s[self.p])) { self.p += 1; }
                if self.p == st { self.p += 1; }
                Tk::W(String::from_utf8_lossy(&self.s[st..self.p]).into_owned())
            }
        }
    }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == Tk::P(c) { self.next(); true } else { false } }
    fn skip_paren(&mut self) {
        // assumes next is '('
        let mut d = 0;
        loop {
            match self.next() { Tk::P(b'(') => d += 1, Tk::P(b')') => { d -= 1; if d == 0 { return; } } Tk::End => return, _ => {} }
        }
    }
    fn ty(&mut self, m: &Module) -> Ty {
        match self.next() {
            Tk::W(w) => {
                let t = match w.as_str() {
                    "void" => Ty::Void, "double" => Ty::F64, "float" => Ty::F32, "ptr" => Ty::Ptr,
                    _ => if w.starts_with('i') { w[1..].parse().map(Ty::Int).unwrap_or(Ty::Other) } else { Ty::Other },
                };
                t
            }
            Tk::L(n) => { if let Some(t) = m.types.get(n.as_str()) { Lx::new(t).ty(m) } else { Ty::Other } }
            Tk::P(b'[') => {
                let n = if let Tk::W(w) = self.next() { w.parse().unwrap_or(0) } else { 0 };
                self.next(); // x
                let t = self.ty(m);
                self.eat(b']');
                Ty::Arr(n, Box::new(t))
            }
            Tk::P(b'{') => {
                let mut v = vec![];
                if self.eat(b'}') { return Ty::Struct(v, false); }
                loop { v.push(self.ty(m)); if !self.eat(b',') { break; } }
                self.eat(b'}');
                Ty::Struct(v, false)
            }
            Tk::P(b'<') => {
                if self.peek() == Tk::P(b'{') {
                    let t = self.ty(m);
                    self.eat(b'>');
                    if let Ty::Struct(v, _) = t { Ty::Struct(v, true) } else { t }
                } else {
                    let n = if let Tk::W(w) = self.next() { w.parse().unwrap_or(0) } else { 0 };
                    self.next();
                    let t = self.ty(m);
                    self.eat(b'>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            _ => Ty::Other,
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            let p = self.p;
            match self.next() {
                Tk::W(w) => {
                    let c0 = w.as_bytes()[0];
                    let isval = matches!(w.as_str(), "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "inttoptr" | "getelementptr" | "splat" | "ptrtoint" | "none" | "add" | "sub" | "nan" | "inf")
                        || c0.is_ascii_digit() || c0 == b'-' || c0 == b'+' || w.starts_with("f0x") || w.starts_with("0x");
                    if isval { self.p = p; return; }
                    if w == "align" { let q = self.p; if let Tk::P(b'(') = self.peek() { self.skip_paren(); } else { self.next(); } let _ = q; continue; }
                    if self.peek() == Tk::P(b'(') { self.skip_paren(); }
                }
                _ => { self.p = p; return; }
            }
        }
    }
    fn op(&mut self, ty: &Ty, m: &Module, slots: &mut dyn FnMut(&str) -> usize) -> Op {
        let t = self.next();
        match t {
            Tk::L(n) => Op::Slot(slots(&n)),
            Tk::G(n) => Op::Global(n, 0),
            Tk::M(_) => { if self.peek() == Tk::P(b'(') { self.skip_paren(); } Op::Meta }
            Tk::S(b) => Op::Agg(b.iter().map(|x| (Ty::Int(8), Op::CI(8, *x as u64))).collect()),
            Tk::P(b'[') | Tk::P(b'{') => {
                let close = if t == Tk::P(b'[') { b']' } else { b'}' };
                let mut v = vec![];
                if self.eat(close) { return Op::Agg(v); }
                loop { let ty = self.ty(m); self.skip_attrs(); let o = self.op(&ty, m, slots); v.push((ty, o)); if !self.eat(b',') { break; } }
                self.eat(close);
                Op::Agg(v)
            }
            Tk::P(b'<') => {
                if self.peek() == Tk::P(b'{') { let o = self.op(ty, m, slots); self.eat(b'>'); return o; }
                let mut v = vec![];
                loop { let ty = self.ty(m); self.skip_attrs(); let o = self.op(&ty, m, slots); v.push((ty, o)); if !self.eat(b',') { break; } }
                self.eat(b'>');
                Op::Agg(v)
            }
            Tk::W(w) => match w.as_str() {
                "true" => Op::CI(1, 1),
                "false" => Op::CI(1, 0),
                "null" => Op::Null,
                "undef" | "poison" => Op::Undef,
                "zeroinitializer" => Op::Zero,
                "inttoptr" => {
                    self.eat(b'(');
                    let ty = self.ty(m);
                    let o = self.op(&ty, m, slots);
                    self.next();
                    self.ty(m);
                    self.eat(b')');
                    if let Op::CI(_, v) = o { Op::IntPtr(v) } else { Op::Undef }
                }
                "getelementptr" => {
                    loop { if let Tk::W(_) = self.peek() { self.next(); if self.peek() == Tk::P(b'(') { break; } } else { break; } }
                    // attributes such as inbounds may carry parens: getelementptr inbounds (T, ptr @g, i64 n)
                    self.eat(b'(');
                    let ty = self.ty(m);
                    self.eat(b',');
                    self.ty(m);
                    let base = self.op(&Ty::Ptr, m, slots);
                    let mut idx = vec![];
                    while self.eat(b',') { let t = self.ty(m); let o = self.op(&t, m, slots); idx.push(o); }
                    self.eat(b')');
                    let mut off = 0i64;
                    let mut cur = ty.clone();
                    for (k, o) in idx.iter().enumerate() {
                        let v = if let Op::CI(w, v) = o { sext(*v, *w) } else { 0 };
                        if k == 0 { off += v * cur.size() as i64; } else { let (o, t) = cur.field_off(v as usize); off += o as i64; cur = t; }
                    }
                    match base { Op::Global(g, o) => Op::Global(g, o + off), b => b }
                }
                "splat" => {
                    self.eat(b'(');
                    let t = self.ty(m);
                    let o = self.op(&t, m, slots);
                    self.eat(b')');
                    let n = if let Ty::Vec(n, _) = ty { *n } else { 1 };
                    Op::Agg((0..n).map(|_| (t.clone(), o.clone())).collect())
                }
                _ => match ty {
                    Ty::F64 => parse_f(&w).map(Op::CF).unwrap_or(Op::Undef),
                    Ty::Int(n) => {
                        if let Ok(v) = w.parse::<i128>() { let mask = if *n >= 64 { u64::MAX } else { (1u64 << n) - 1 }; Op::CI(*n, (v as u64) & mask) } else { Op::Undef }
                    }
                    _ => Op::Undef,
                },
            },
            _ => Op::Undef,
        }
    }
}
pub fn sext(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }
fn parse_f(w: &str) -> Option<f64> {
    if let Some(h) = w.strip_prefix("f0x").or(w.strip_prefix("0x")) { return u64::from_str_radix(h, 16).ok().map(f64::from_bits); }
    if let Some(h) = w.strip_prefix("-f0x") { return u64::from_str_radix(h, 16).ok().map(|b| -f64::from_bits(b)); }
    match w {
        "+inf" | "inf" => return Some(f64::INFINITY),
        "-inf" => return Some(f64::NEG_INFINITY),
        _ => {}
    }
    if w.contains("nan") { return Some(f64::NAN); }
    w.parse().ok()
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read IR").into_boxed_str());
        let mut m = Module { text, funcs: HashMap::new(), decls: HashMap::new(), globals: HashMap::new(), aliases: HashMap::new(), attrs: HashMap::new(), meta: HashMap::new(), types: HashMap::new() };
        let mut pos = 0;
        let mut cur: Option<(&'static str, usize)> = None;
        for line in text.split_inclusive('\n') {
            let st = pos;
            pos += line.len();
            if let Some((n, s)) = cur {
                if line.starts_with('}') { m.funcs.insert(n, (s, pos)); cur = None; }
                continue;
            }
            if line.starts_with("define") {
                cur = Some((gname(line), st));
            } else if line.starts_with("declare") {
                m.decls.insert(gname(line), line);
            } else if line.starts_with('@') {
                let n = gname(line);
                if line.contains(" alias ") {
                    let t: Vec<&str> = line.split('@').collect();
                    if t.len() > 2 { let e = t[2].split([',', '\n', ' ']).next().unwrap(); m.aliases.insert(n.to_string(), e.trim_matches('"').to_string()); }
                } else { m.globals.insert(n, line.trim_end()); }
            } else if line.starts_with("attributes #") {
                let r = &line[12..];
                let e = r.find(' ').unwrap();
                if let Ok(k) = r[..e].parse() { m.attrs.insert(k, line); }
            } else if line.starts_with('!') {
                if let Some(e) = line.find(" = ") { if let Ok(k) = line[1..e].parse() { m.meta.insert(k, line[e + 3..].trim_end()); } }
            } else if line.starts_with('%') {
                if let Some(e) = line.find(" = type ") { m.types.insert(&line[1..e], line[e + 8..].trim_end()); }
            }
        }
        m
    }
    pub fn has_func(&self, n: &str) -> bool { self.funcs.contains_key(n) }
    pub fn func_names(&self) -> Vec<&'static str> { self.funcs.keys().copied().collect() }
    pub fn func_text(&self, n: &str) -> Option<&'static str> { self.funcs.get(n).map(|&(a, b)| &self.text[a..b]) }
    pub fn resolve<'a>(&'a self, n: &'a str) -> &'a str { let mut n = n; for _ in 0..4 { if let Some(t) = self.aliases.get(n) { n = t; } else { break; } } n }
    /// Does the callee never return (a panic / abort entry point)?
    pub fn noreturn(&self, n: &str) -> bool {
        let head = if let Some(&(s, _)) = self.funcs.get(n) { self.text[s..].lines().next().unwrap() } else if let Some(d) = self.decls.get(n) { d } else { return false };
        if head.contains("noreturn") { return true; }
        for t in head.split_whitespace() {
            if let Some(r) = t.strip_prefix('#') { if let Ok(k) = r.parse::<u32>() { if self.attrs.get(&k).map_or(false, |a| a.contains(" noreturn ")) { return true; } } }
        }
        false
    }
    /// Resolve a !dbg id to "file:line" preferring source files of the analysed crate.
    pub fn loc(&self, dbg: u32) -> String {
        let mut id = dbg;
        let mut first = String::new();
        for _ in 0..60 {
            let Some(l) = self.meta.get(&id) else { break };
            let line = field(l, "line: ").unwrap_or("0").to_string();
            let mut sc = field(l, "scope: !").and_then(|x| x.parse::<u32>().ok());
            let mut file = String::new();
            let mut func = String::new();
            for _ in 0..40 {
                let Some(s) = sc else { break };
                let Some(t) = self.meta.get(&s) else { break };
                if file.is_empty() { if let Some(f) = field(t, "file: !").and_then(|x| x.parse::<u32>().ok()) { if let Some(ft) = self.meta.get(&f) { file = sfield(ft, "filename: ").unwrap_or_default(); let dir = sfield(ft, "directory: ").unwrap_or_default(); if !file.starts_with('/') { file = format!("{}/{}", dir, file); } } } }
                if t.contains("DISubprogram") { func = sfield(t, "name: ").unwrap_or_default(); break; }
                sc = field(t, "scope: !").and_then(|x| x.parse().ok());
            }
            let s = format!("{}:{} ({})", file, line, func);
            if first.is_empty() { first = s.clone(); }
            if file.contains("/repo/src") || (!file.contains("/rustc/") && !file.contains("/library/") && file.contains("/src/") && !file.contains(".cargo") && !file.contains("/harness/")) { return s; }
            match field(l, "inlinedAt: !").and_then(|x| x.parse().ok()) { Some(i) => id = i, None => break }
        }
        first
    }
    pub fn global_init(&self, n: &str) -> Option<(Ty, Op, bool)> {
        let l = self.globals.get(n)?;
        let e = l.find(" = ")? + 3;
        let mut rest = &l[e..];
        let mut constant = false;
        loop {
            let w = rest.split(' ').next()?;
            match w {
                "constant" => { constant = true; rest = &rest[w.len() + 1..]; break; }
                "global" => { rest = &rest[w.len() + 1..]; break; }
                "external" => return None,
                _ => rest = &rest[w.len() + 1..],
            }
        }
        let mut lx = Lx::new(rest);
        let ty = lx.ty(self);
        let op = lx.op(&ty, self, &mut |_| 0);
        Some((ty, op, constant))
    }
    pub fn global_flags(&self, n: &str) -> Option<&'static str> { self.globals.get(n).copied() }

    pub fn parse(&self, name: &str) -> Func {
        let &(s, e) = self.funcs.get(name).unwrap_or_else(|| panic!("no such function in IR: {name}"));
        let body = &self.text[s..e];
        let mut lines = body.lines();
        let head = lines.next().unwrap();
        let mut slotmap: HashMap<String, usize> = HashMap::new();
        let mut nslots = 0usize;
        let mut blockmap: HashMap<String, usize> = HashMap::new();
        // block labels
        let mut labels: Vec<String> = vec![];
        {
            for l in body.lines().skip(1) {
                if !l.starts_with(' ') && !l.starts_with('}') && !l.starts_with(';') && !l.is_empty() {
                    let t = l.split(':').next().unwrap().trim_matches('"').to_string();
                    if l.contains(':') { blockmap.insert(t.clone(), labels.len()); labels.push(t); }
                }
            }
        }
        // header
        let at = head.find('@').unwrap();
        let rt = {
            // return type is the last type before '@'; scan tokens
            let pre = &head[6..at];
            let mut lx = Lx::new(pre);
            let mut ty = Ty::Void;
            loop {
                match lx.peek() {
                    Tk::End => break,
                    Tk::W(w) => {
                        if matches!(w.as_str(), "void" | "double" | "float" | "ptr") || (w.starts_with('i') && w[1..].parse::<u32>().is_ok()) { ty = lx.ty(self); }
                        else { lx.next(); if lx.peek() == Tk::P(b'(') { lx.skip_paren(); } }
                    }
                    Tk::P(b'{') | Tk::P(b'[') | Tk::P(b'<') | Tk::L(_) => { ty = lx.ty(self); }
                    _ => { lx.next(); }
                }
            }
            ty
        };
        let mut lx = Lx::new(&head[at..]);
        lx.next();
        lx.eat(b'(');
        let mut params = vec![];
        let mut implicit = 0usize;
        if !lx.eat(b')') {
            loop {
                if lx.peek() == Tk::W("...".into()) { lx.next(); break; }
                let ty = lx.ty(self);
                lx.skip_attrs();
                let nm = if let Tk::L(n) = lx.peek() { lx.next(); n } else { let n = implicit.to_string(); n };
                implicit += 1;
                let id = nslots; nslots += 1;
                slotmap.insert(nm, id);
                params.push((ty, id));
                if !lx.eat(b',') { break; }
            }
        }
        let mut blocks: Vec<Block> = vec![];
        let mut getslot = |n: &str| -> usize { if let Some(&i) = slotmap.get(n) { i } else { let i = nslots; nslots += 1; slotmap.insert(n.to_string(), i); i } };
        if labels.is_empty() || body.lines().skip(1).find(|l| !l.trim().is_empty() && !l.starts_with(';')).map_or(true, |l| l.starts_with(' ')) {
            // unlabeled entry block
            let lab = "%entry%".to_string();
            for v in blockmap.values_mut() { *v += 1; }
            blockmap.insert(lab.clone(), 0);
            labels.insert(0, lab);
            blocks.push(Block { ins: vec![], nphi: 0, succ: vec![], npred: 0, order: 0, live: vec![], in_loop: false, outer_head: false, exits: vec![] });
        }
        let mut all: Vec<String> = vec![];
        // join multi-line switch
        let mut acc: Option<String> = None;
        for l in lines {
            if let Some(a) = &mut acc { a.push_str(l); if l.trim_start().starts_with(']') { all.push(acc.take().unwrap()); } continue; }
            let t = l.trim_start();
            if t.starts_with("switch ") && !t.contains(']') { acc = Some(l.to_string()); continue; }
            all.push(l.to_string());
        }
        for l in &all {
            if l.starts_with('}') { break; }
            let t = l.trim();
            if t.is_empty() || t.starts_with(';') { continue; }
            if !l.starts_with(' ') { blocks.push(Block { ins: vec![], nphi: 0, succ: vec![], npred: 0, order: 0, live: vec![], in_loop: false, outer_head: false, exits: vec![] }); continue; }
            let dbg = t.find("!dbg !").map(|p| t[p + 6..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(0)).unwrap_or(0);
            let ins = self.instr(t, &mut getslot, &blockmap);
            let b = blocks.last_mut().unwrap();
            if let Some((d, i)) = ins { b.ins.push(Instr { dst: d, ins: i, dbg }); }
        }
        // successors
        for b in blocks.iter_mut() {
            b.nphi = b.ins.iter().take_while(|i| matches!(i.ins, Ins::Phi(..))).count();
            b.succ = match b.ins.last().map(|i| &i.ins) {
                Some(Ins::Br(t)) => vec![*t],
                Some(Ins::CondBr(_, a, c)) => if a == c { vec![*a] } else { vec![*a, *c] },
                Some(Ins::Switch(_, _, d, v)) => { let mut s = vec![*d]; for (_, t) in v { if !s.contains(t) { s.push(*t); } } s }
                _ => vec![],
            };
        }
        for i in 0..blocks.len() { for s in blocks[i].succ.clone() { blocks[s].npred += 1; } }
        let mut f = Func { name: name.to_string(), params, ret: rt, blocks, nslots, bits_split: vec![] };
        wto(&mut f);
        liveness(&mut f);
        bits(&mut f);
        f
    }

    fn instr(&self, t: &str, gs: &mut dyn FnMut(&str) -> usize, bm: &HashMap<String, usize>) -> Option<(Option<usize>, Ins)> {
        let mut lx = Lx::new(t);
        let mut dst = None;
        if let Tk::L(n) = lx.peek() { lx.next(); lx.eat(b'='); dst = Some(gs(&n)); }
        let Tk::W(mut op) = lx.next() else { return Some((dst, Ins::Unknown(t.to_string()))) };
        if matches!(op.as_str(), "tail" | "musttail" | "notail") { if let Tk::W(w) = lx.next() { op = w; } }
        macro_rules! lab { () => {{ lx.next(); if let Tk::L(n) = lx.next() { *bm.get(&n).unwrap_or(&usize::MAX) } else { usize::MAX } }}; }
        let ins = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let mut fl = op.clone();
                while let Tk::W(w) = lx.peek() { if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nnan" | "ninf" | "nsz" | "samesign" ) { lx.next(); } else if matches!(w.as_str(), "fast" | "reassoc" | "arcp" | "contract" | "afn") { lx.next(); fl = format!("fastmath-{op}"); } else { break; } }
                let ty = lx.ty(self);
                let a = lx.op(&ty, self, gs);
                lx.eat(b',');
                let b = lx.op(&ty, self, gs);
                Ins::Bin(fl, ty, a, b)
            }
            "fneg" => { lx_flags(&mut lx); let ty = lx.ty(self); let a = lx.op(&ty, self, gs); if ty == Ty::F64 { Ins::FNeg(a) } else { Ins::Unknown(t.into()) } }
            "fcmp" => { lx_flags(&mut lx); let Tk::W(p) = lx.next() else { return None }; let ty = lx.ty(self); let a = lx.op(&ty, self, gs); lx.eat(b','); let b = lx.op(&ty, self, gs); if ty == Ty::F64 { Ins::FCmp(p, a, b) } else { Ins::Unknown(t.into()) } }
            "icmp" => {
                lx_flags(&mut lx);
                let Tk::W(p) = lx.next() else { return None };
                let ty = lx.ty(self); let a = lx.op(&ty, self, gs); lx.eat(b','); let b = lx.op(&ty, self, gs);
                Ins::ICmp(p, ty, a, b)
            }
            "select" => { lx_flags(&mut lx); let cty = lx.ty(self); let c = lx.op(&cty, self, gs); lx.eat(b','); let ty = lx.ty(self); let a = lx.op(&ty, self, gs); lx.eat(b','); let ty2 = lx.ty(self); let b = lx.op(&ty2, self, gs); if cty == Ty::Int(1) { Ins::Select(c, ty, a, b) } else { Ins::Unknown(t.into()) } }
            "phi" => {
                lx_flags(&mut lx);
                let ty = lx.ty(self);
                let mut v = vec![];
                loop {
                    if !lx.eat(b'[') { break; }
                    let o = lx.op(&ty, self, gs);
                    lx.eat(b',');
                    if let Tk::L(n) = lx.next() { v.push((o, *bm.get(&n).unwrap_or(&usize::MAX))); }
                    lx.eat(b']');
                    if !lx.eat(b',') { break; }
                    if lx.peek() != Tk::P(b'[') { break; }
                }
                // an unlabeled entry block is referred to by its implicit number
                for x in v.iter_mut() { if x.1 == usize::MAX { x.1 = 0; } }
                Ins::Phi(ty, v)
            }
            "br" => {
                if lx.peek() == Tk::W("label".into()) { Ins::Br(lab!()) } else {
                    let ty = lx.ty(self); let c = lx.op(&ty, self, gs); lx.eat(b','); let a = lab!(); lx.eat(b','); let b = lab!(); Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let ty = lx.ty(self); let c = lx.op(&ty, self, gs); lx.eat(b','); let d = lab!(); lx.eat(b'[');
                let mut v = vec![];
                while lx.peek() != Tk::P(b']') && lx.peek() != Tk::End { let ty = lx.ty(self); let o = lx.op(&ty, self, gs); lx.eat(b','); let l = lab!(); if let Op::CI(_, x) = o { v.push((x, l)); } }
                let w = if let Ty::Int(w) = ty { w } else { 64 };
                Ins::Switch(w, c, d, v)
            }
            "ret" => { let ty = lx.ty(self); if ty == Ty::Void { Ins::Ret(None) } else { let o = lx.op(&ty, self, gs); Ins::Ret(Some((ty, o))) } }
            "unreachable" => Ins::Unreachable,
            "load" => {
                while let Tk::W(w) = lx.peek() { if matches!(w.as_str(), "volatile" | "atomic") { lx.next(); } else { break; } }
                let ty = lx.ty(self); lx.eat(b','); lx.ty(self); let p = lx.op(&Ty::Ptr, self, gs); Ins::Load(ty, p)
            }
            "store" => {
                while let Tk::W(w) = lx.peek() { if matches!(w.as_str(), "volatile" | "atomic") { lx.next(); } else { break; } }
                let ty = lx.ty(self); let v = lx.op(&ty, self, gs); lx.eat(b','); lx.ty(self); let p = lx.op(&Ty::Ptr, self, gs); Ins::Store(ty, v, p)
            }
            "getelementptr" => {
                while let Tk::W(w) = lx.peek() { if matches!(w.as_str(), "inbounds" | "nuw" | "nusw") { lx.next(); } else if w == "inrange" { lx.next(); lx.skip_paren(); } else { break; } }
                let ty = lx.ty(self); lx.eat(b','); lx.ty(self); let p = lx.op(&Ty::Ptr, self, gs);
                let mut v = vec![];
                while lx.eat(b',') { if let Tk::M(_) = lx.peek() { break; } let t = lx.ty(self); let o = lx.op(&t, self, gs); v.push((t, o)); }
                Ins::Gep(ty, p, v)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "ptrtoint" | "inttoptr" | "fpext" | "fptrunc" => {
                lx_flags(&mut lx);
                let from = lx.ty(self); let a = lx.op(&from, self, gs); lx.next(); let to = lx.ty(self); Ins::Cast(op.clone(), from, a, to)
            }
            "call" | "invoke" => {
                // skip cc/attrs until the return type
                let ret;
                loop {
                    match lx.peek() {
                        Tk::W(w) => {
                            if matches!(w.as_str(), "void" | "double" | "float" | "ptr") || (w.starts_with('i') && w[1..].parse::<u32>().is_ok()) { ret = lx.ty(self); break; }
                            lx.next();
                            if w == "align" { lx.next(); continue; }
                            if lx.peek() == Tk::P(b'(') { lx.skip_paren(); }
                        }
                        Tk::P(b'{') | Tk::P(b'[') | Tk::P(b'<') | Tk::L(_) => { ret = lx.ty(self); break; }
                        _ => return Some((dst, Ins::Unknown(t.to_string()))),
                    }
                }
                // optional function type
                if lx.peek() == Tk::P(b'(') { lx.skip_paren(); }
                let callee = match lx.next() {
                    Tk::G(n) => n,
                    Tk::W(w) if w == "asm" => format!("%asm {}", t),
                    _ => "%indirect".to_string(),
                };
                if callee.starts_with("%asm") { return Some((dst, Ins::Call(callee, ret, vec![]))); }
                lx.eat(b'(');
                let mut args = vec![];
                if !lx.eat(b')') {
                    loop {
                        if lx.peek() == Tk::W("metadata".into()) { lx.next(); lx.next(); if lx.peek() == Tk::P(b'(') { lx.skip_paren(); } args.push((Ty::Other, Op::Meta)); }
                        else { let ty = lx.ty(self); lx.skip_attrs(); let o = lx.op(&ty, self, gs); args.push((ty, o)); }
                        if !lx.eat(b',') { break; }
                    }
                }
                if op == "invoke" {
                    return Some((dst, Ins::Unknown(t.to_string())));
                }
                Ins::Call(callee, ret, args)
            }
            "extractvalue" => { let ty = lx.ty(self); let a = lx.op(&ty, self, gs); let mut v = vec![]; while lx.eat(b',') { if let Tk::W(w) = lx.peek() { lx.next(); v.push(w.parse().unwrap_or(0)); } else { break; } } Ins::Extract(a, v) }
            "insertvalue" => {
                let ty = lx.ty(self); let a = lx.op(&ty, self, gs); lx.eat(b','); let t2 = lx.ty(self); let b = lx.op(&t2, self, gs);
                let mut v = vec![]; while lx.eat(b',') { if let Tk::W(w) = lx.peek() { lx.next(); v.push(w.parse().unwrap_or(0)); } else { break; } }
                Ins::Insert(ty, a, t2, b, v)
            }
            "alloca" => { let ty = lx.ty(self); Ins::Alloca(ty.size()) }
            "freeze" => { let ty = lx.ty(self); let a = lx.op(&ty, self, gs); Ins::Freeze(a) }
            "fence" => return None,
            _ => Ins::Unknown(t.to_string()),
        };
        Some((dst, ins))
    }
}
fn lx_flags(lx: &mut Lx) {
    while let Tk::W(w) = lx.peek() {
        if matches!(w.as_str(), "nnan" | "ninf" | "nsz" | "nuw" | "nsw" | "nneg" | "samesign" | "contract" | "reassoc" | "afn" | "arcp" | "fast") { lx.next(); } else { break; }
    }
}
fn gname(line: &'static str) -> &'static str {
    let at = match line.find('@') { Some(a) => a, None => return "" };
    let r = &line[at + 1..];
    if r.starts_with('"') { let e = r[1..].find('"').unwrap(); &r[1..1 + e] } else { let e = r.find(|c: char| !(c.is_ascii_alphanumeric() || "._$-".contains(c))).unwrap_or(r.len()); &r[..e] }
}
fn field<'a>(l: &'a str, k: &str) -> Option<&'a str> {
    let p = l.find(k)? + k.len();
    let r = &l[p..];
    let e = r.find(|c: char| !(c.is_ascii_alphanumeric())).unwrap_or(r.len());
    Some(&r[..e])
}
fn sfield(l: &str, k: &str) -> Option<String> {
    let p = l.find(k)? + k.len();
    let r = &l[p..];
    let r = r.strip_prefix('"')?;
    let e = r.find('"')?;
    Some(r[..e].to_string())
}

pub fn ops_of(i: &Ins) -> Vec<&Op> {
    match i {
        Ins::Bin(_, _, a, b) | Ins::FCmp(_, a, b) | Ins::ICmp(_, _, a, b) => vec![a, b],
        Ins::FNeg(a) | Ins::Load(_, a) | Ins::Cast(_, _, a, _) | Ins::Extract(a, _) | Ins::Freeze(a) | Ins::CondBr(a, _, _) | Ins::Switch(_, a, _, _) => vec![a],
        Ins::Select(c, _, a, b) => vec![c, a, b],
        Ins::Store(_, a, b) | Ins::Insert(_, a, _, b, _) => vec![a, b],
        Ins::Gep(_, a, v) => { let mut r = vec![a]; r.extend(v.iter().map(|x| &x.1)); r }
        Ins::Call(_, _, v) => v.iter().map(|x| &x.1).collect(),
        Ins::Ret(Some((_, a))) => vec![a],
        Ins::Phi(_, v) => v.iter().map(|x| &x.0).collect(),
        _ => vec![],
    }
}
fn slots_of(o: &Op, out: &mut Vec<usize>) {
    match o { Op::Slot(s) => out.push(*s), Op::Agg(v) => for (_, x) in v { slots_of(x, out) }, _ => {} }
}

/// Weak topological order (Bourdoncle): loop components are contiguous.
fn wto(f: &mut Func) {
    struct S<'a> { f: &'a Func, dfn: Vec<i64>, num: i64, st: Vec<usize>, out: Vec<usize>, inl: Vec<bool> }
    // recursive; emits in reverse
    fn visit(s: &mut S, v: usize, part: &mut Vec<usize>) -> i64 {
        s.st.push(v);
        s.num += 1;
        s.dfn[v] = s.num;
        let mut head = s.num;
        let mut loop_ = false;
        for w in s.f.blocks[v].succ.clone() {
            let m = if s.dfn[w] == 0 { visit(s, w, part) } else { s.dfn[w] };
            if m <= head { head = m; loop_ = true; }
        }
        if head == s.dfn[v] {
            s.dfn[v] = i64::MAX;
            let mut e = s.st.pop().unwrap();
            if loop_ {
                while e != v { s.dfn[e] = 0; e = s.st.pop().unwrap(); }
                // component(v)
                let mut comp = vec![];
                s.inl[v] = true;
                for w in s.f.blocks[v].succ.clone() { if s.dfn[w] == 0 { visit(s, w, &mut comp); } }
                for &c in &comp { s.inl[c] = true; }
                part.extend(comp);
                part.push(v);
            } else { part.push(v); }
        }
        head
    }
    let n = f.blocks.len();
    let mut s = S { f, dfn: vec![0; n], num: 0, st: vec![], out: vec![], inl: vec![false; n] };
    let mut part = vec![];
    visit(&mut s, 0, &mut part);
    s.out = part;
    s.out.reverse();
    let out = s.out;
    let inl = s.inl;
    for (i, b) in out.iter().enumerate() { f.blocks[*b].order = i; f.blocks[*b].in_loop = inl[*b]; }
    // innermost loop of every block: strongly connected components, then again without the head
    let n = f.blocks.len();
    let mut inner: Vec<usize> = vec![0; n];
    let mut next = 1;
    let mut members: Vec<Vec<bool>> = vec![vec![false; n]];
    let mut todo: Vec<Vec<usize>> = vec![(0..n).collect()];
    let mut heads: Vec<usize> = vec![];
    let reach = |from: usize, set: &[bool], fwd: &Vec<Vec<usize>>| -> Vec<bool> {
        let mut seen = vec![false; n];
        let mut st = vec![from];
        while let Some(x) = st.pop() { for &y in &fwd[x] { if set[y] && !seen[y] { seen[y] = true; st.push(y); } } }
        seen
    };
    let fwd: Vec<Vec<usize>> = f.blocks.iter().map(|b| b.succ.clone()).collect();
    let mut bwd: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, b) in fwd.iter().enumerate() { for &y in b { bwd[y].push(i); } }
    while let Some(nodes) = todo.pop() {
        let mut set = vec![false; n];
        for &x in &nodes { set[x] = true; }
        let mut done = vec![false; n];
        for &x in &nodes {
            if done[x] { continue; }
            let a = reach(x, &set, &fwd);
            let b = reach(x, &set, &bwd);
            let scc: Vec<usize> = nodes.iter().cloned().filter(|&y| a[y] && b[y]).collect();
            done[x] = true;
            if scc.is_empty() { continue; }
            members.push(vec![false; n]);
            for &y in &scc { done[y] = true; inner[y] = next; members[next][y] = true; }
            next += 1;
            let head = *scc.iter().min_by_key(|y| f.blocks[**y].order).unwrap();
            if nodes.len() == n { heads.push(head); }
            todo.push(scc.into_iter().filter(|&y| y != head).collect());
        }
    }
    for h in heads { f.blocks[h].outer_head = true; }
    for i in 0..n { let k = inner[i]; if k > 0 { f.blocks[i].exits = f.blocks[i].succ.iter().map(|&s| !members[k][s]).collect(); } }
}

fn liveness(f: &mut Func) {
    let n = f.blocks.len();
    let w = (f.nslots + 63) / 64;
    let mut livein = vec![vec![0u64; w]; n]; // live at block start after phis
    let mut phidef: Vec<Vec<usize>> = vec![vec![]; n];
    let mut gen_ = vec![vec![0u64; w]; n];
    let mut kill = vec![vec![0u64; w]; n];
    for (i, b) in f.blocks.iter().enumerate() {
        for ins in &b.ins {
            if let Ins::Phi(..) = ins.ins { if let Some(d) = ins.dst { phidef[i].push(d); } continue; }
            let mut v = vec![];
            for o in ops_of(&ins.ins) { slots_of(o, &mut v); }
            for s in v { if kill[i][s / 64] >> (s % 64) & 1 == 0 { gen_[i][s / 64] |= 1 << (s % 64); } }
            if let Some(d) = ins.dst { kill[i][d / 64] |= 1 << (d % 64); }
        }
    }
    let mut ch = true;
    while ch {
        ch = false;
        for i in (0..n).rev() {
            let mut out = vec![0u64; w];
            for &s in &f.blocks[i].succ {
                let mut x = livein[s].clone();
                for &d in &phidef[s] { x[d / 64] &= !(1 << (d % 64)); }
                for ins in f.blocks[s].ins.iter().take(f.blocks[s].nphi) {
                    if let Ins::Phi(_, v) = &ins.ins { for (o, p) in v { if *p == i { let mut t = vec![]; slots_of(o, &mut t); for q in t { x[q / 64] |= 1 << (q % 64); } } } }
                }
                for k in 0..w { out[k] |= x[k]; }
            }
            for k in 0..w {
                let nv = gen_[i][k] | (out[k] & !kill[i][k]);
                if nv != livein[i][k] { livein[i][k] = nv; ch = true; }
            }
        }
    }
    for i in 0..n {
        f.blocks[i].live = (0..f.nslots).filter(|s| livein[i][s / 64] >> (s % 64) & 1 == 1).collect();
    }
}

/// Which integer slots holding `bitcast double to i64` are taken apart into exponent/mantissa.
fn bits(f: &mut Func) {
    f.bits_split = vec![false; f.nslots];
    let mut from: HashMap<usize, ()> = HashMap::new();
    for b in &f.blocks { for i in &b.ins { if let Ins::Cast(op, Ty::F64, _, Ty::Int(64)) = &i.ins { if op == "bitcast" { from.insert(i.dst.unwrap(), ()); } } } }
    // propagate through phis/selects/freeze is not needed: splitting at the cast is only a precision matter
    for b in &f.blocks {
        for i in &b.ins {
            if let Ins::Bin(op, Ty::Int(64), a, c) = &i.ins {
                let s = match (a, c) { (Op::Slot(s), Op::CI(..)) if from.contains_key(s) => *s, _ => continue };
                let k = if let Op::CI(_, k) = c { *k } else { 0 };
                match op.as_str() {
                    "lshr" | "ashr" if k == 52 => f.bits_split[s] = true,
                    "shl" => f.bits_split[s] = true,
                    "and" if k & 0x000f_ffff_ffff_ffff != 0 && k != 0x7fff_ffff_ffff_ffff => f.bits_split[s] = true,
                    "and" if k == 0x7ff0_0000_0000_0000 => {}
                    "and" if k == 0x7fff_ffff_ffff_ffff || k == 1 << 63 => {}
                    "and" => f.bits_split[s] = true,
                    _ => {}
                }
            }
        }
    }
}
