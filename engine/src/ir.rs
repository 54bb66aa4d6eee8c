//! Reader for the textual LLVM IR of the whole program. Functions are parsed on first use.
use crate::expr::mask;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(u32, Box<Ty>),
    Arr(u64, Box<Ty>),
    Struct(bool, Vec<Ty>),
    Meta,
}
impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Struct(..))
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 1,
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(p, ts) => {
                if *p {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    /// allocation size in bytes
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = b.next_power_of_two().min(16);
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(p, ts) => {
                let mut o = 0;
                for t in ts {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !*p {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.size(),
            Ty::Struct(p, ts) => {
                let mut o = 0;
                for (j, t) in ts.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            _ => panic!("field_off {:?}", self),
        }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            Ty::Struct(_, ts) => &ts[i],
            _ => panic!("field {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(u128),
    Agg(std::rc::Rc<Vec<Opd>>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Same,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpConv,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Sym(u32), // symbol id
    Ind(Opd),
    AsmNop,
}
#[derive(Clone, Debug)]
pub struct Call {
    pub callee: Callee,
    pub args: Vec<(Ty, Opd)>,
    pub ret: Ty,
    pub dst: Option<u32>,
    pub unwind: Option<(u32, u32)>, // normal, unwind block
}
#[derive(Clone, Debug)]
pub enum Ins {
    Bin(u32, BinOp, Ty, Opd, Opd),
    ICmp(u32, &'static str, Ty, Opd, Opd),
    FCmp(u32, String, Ty, Opd, Opd),
    FNeg(u32, Ty, Opd),
    Cast(u32, CastOp, Ty, Ty, Opd),
    Load(u32, Ty, Opd, bool),
    Store(Ty, Opd, Opd, bool),
    Alloca(u32, u64, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u32, i64)>),
    Select(u32, Ty, Ty, Opd, Opd, Opd),
    ExtractValue(u32, Opd, Vec<u32>),
    InsertValue(u32, Ty, Opd, Opd, Vec<u32>),
    ExtractElement(u32, Ty, Opd, Opd),
    InsertElement(u32, Ty, Opd, Opd, Opd),
    Shuffle(u32, Ty, Opd, Opd, Vec<u32>),
    Call(Box<Call>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Resume(Opd),
    LandingPad(u32, bool, Vec<bool>), // cleanup?, clauses: true = catch, false = filter
    Rmw(u32, String, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Fence,
    Freeze(u32, Opd),
}
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<Ins>,
    pub name: String,
}
pub struct Func {
    pub name: String,
    pub pretty: String,
    pub params: Vec<(Ty, u32)>,
    pub byval: Vec<Option<u64>>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub enum SymKind {
    FuncDef { body: (usize, usize) },
    FuncDecl { weak: bool },
    Global { line: (usize, usize), tls: bool, constant: bool },
}
pub struct Sym {
    pub name: String,
    pub pretty: String,
    pub kind: SymKind,
}
pub struct GlobalInit {
    pub bytes: Vec<u8>,
}
pub struct Module {
    pub text: &'static str,
    pub syms: Vec<Sym>,
    pub by_name: HashMap<String, u32>,
    pub by_pretty: HashMap<String, u32>,
    funcs: Vec<Option<&'static Func>>,
}

/// Address of symbol `id`: object ids 1.. are symbols.
pub fn sym_addr(id: u32) -> u64 {
    ((id as u64) + 1) << 32
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e)).into_boxed_str());
        let mut syms = vec![];
        let mut by_name = HashMap::new();
        let mut by_pretty = HashMap::new();
        let b = text.as_bytes();
        let mut pos = 0;
        let mut comment = (0, 0);
        while pos < b.len() {
            let end = memchr(b, b'\n', pos);
            let line = &text[pos..end];
            let mut next = end + 1;
            if line.starts_with("; ") {
                comment = (pos + 2, end);
            } else if line.starts_with('@') {
                let (name, rest) = take_name(&line[1..]);
                let tls = rest.contains(" thread_local");
                let constant = {
                    // keyword before the type
                    let r = rest.trim_start().trim_start_matches('=');
                    let mut c = false;
                    for w in r.split_whitespace().take(8) {
                        if w == "constant" {
                            c = true;
                            break;
                        }
                        if w == "global" {
                            break;
                        }
                    }
                    c
                };
                if !name.starts_with("llvm.") {
                    by_name.insert(name.clone(), syms.len() as u32);
                    syms.push(Sym { name, pretty: String::new(), kind: SymKind::Global { line: (pos, end), tls, constant } });
                }
            } else if line.starts_with("define ") {
                let at = find_at(line);
                let (name, _) = take_name(&line[at + 1..]);
                // body until a line "}"
                let close = text[end..].find("\n}\n").map(|x| end + x + 1).unwrap_or(b.len());
                let pretty = if comment.1 + 1 >= pos || text[comment.1..pos].lines().all(|l| l.trim().is_empty() || l.starts_with("; ")) {
                    text[comment.0..comment.1].to_string()
                } else {
                    String::new()
                };
                // the demangled name precedes "; Function Attrs:" lines
                let pretty = if pretty.starts_with("Function Attrs") || pretty.is_empty() { prev_pretty(text, pos) } else { pretty };
                by_name.insert(name.clone(), syms.len() as u32);
                if !pretty.is_empty() {
                    by_pretty.insert(pretty.clone(), syms.len() as u32);
                }
                syms.push(Sym { name, pretty, kind: SymKind::FuncDef { body: (pos, close) } });
                next = close + 2;
            } else if line.starts_with("declare ") {
                let at = find_at(line);
                let (name, _) = take_name(&line[at + 1..]);
                by_name.insert(name.clone(), syms.len() as u32);
                syms.push(Sym { name, pretty: String::new(), kind: SymKind::FuncDecl { weak: line.contains("extern_weak") } });
            } else if line.starts_with('!') {
                break;
            }
            pos = next;
        }
        let n = syms.len();
        Module { text, syms, by_name, by_pretty, funcs: vec![None; n] }
    }
    pub fn func(&mut self, id: u32) -> &'static Func {
        if let Some(f) = self.funcs[id as usize] {
            return f;
        }
        let f: &'static Func = Box::leak(Box::new(self.parse_func(id)));
        self.funcs[id as usize] = Some(f);
        f
    }
    /// Initial bytes of a global (None for external declarations).
    pub fn global_init(&self, id: u32) -> Option<Vec<u8>> {
        let (s, e) = match self.syms[id as usize].kind {
            SymKind::Global { line, .. } => line,
            _ => return None,
        };
        let mut lx = Lex::new(&self.text[s..e]);
        lx.next(); // @name
        lx.expect("=");
        let mut external = false;
        loop {
            let t = lx.next();
            match t {
                "global" | "constant" => break,
                "external" | "extern_weak" => external = true,
                "(" => {
                    lx.skip_parens();
                }
                "" => panic!("global {}", &self.text[s..e]),
                _ => {}
            }
        }
        let ty = lx.ty();
        if external {
            return Some(vec![0; ty.size().max(8) as usize]);
        }
        let mut p = FnParser { m: self, lx, regs: HashMap::new(), nregs: 0, blocks: HashMap::new() };
        let c = p.value(&ty);
        let mut out = vec![0u8; ty.size() as usize];
        write_const(&ty, &c, &mut out, 0);
        Some(out)
    }
    fn parse_func(&self, id: u32) -> Func {
        let s = &self.syms[id as usize];
        let (b, e) = match s.kind {
            SymKind::FuncDef { body } => body,
            _ => panic!("not a definition: {}", s.name),
        };
        let mut p = FnParser { m: self, lx: Lex::new(&self.text[b..e]), regs: HashMap::new(), nregs: 0, blocks: HashMap::new() };
        p.function(s.name.clone(), s.pretty.clone())
    }
}

fn prev_pretty(text: &str, pos: usize) -> String {
    // look at the preceding lines for a demangled-name comment
    let mut end = pos;
    for _ in 0..3 {
        if end == 0 {
            break;
        }
        let start = text[..end - 1].rfind('\n').map(|x| x + 1).unwrap_or(0);
        let l = &text[start..end - 1];
        if l.starts_with("; ") && !l.starts_with("; Function Attrs") {
            return l[2..].to_string();
        }
        if !l.starts_with("; ") {
            break;
        }
        end = start;
    }
    String::new()
}

fn write_const(ty: &Ty, c: &Opd, out: &mut [u8], off: usize) {
    match c {
        Opd::C(v) => {
            if ty.is_agg() {
                // zeroinitializer / undef
                return;
            }
            let n = ty.size() as usize;
            for i in 0..n.min(16) {
                out[off + i] = (v >> (8 * i)) as u8;
            }
        }
        Opd::Agg(vs) => {
            for (i, v) in vs.iter().enumerate() {
                write_const(ty.field(i), v, out, off + ty.field_off(i) as usize);
            }
        }
        Opd::Reg(_) => panic!("register in constant"),
    }
}

fn memchr(b: &[u8], c: u8, from: usize) -> usize {
    let mut i = from;
    while i < b.len() && b[i] != c {
        i += 1;
    }
    i
}
fn find_at(line: &str) -> usize {
    // first '@' outside quotes
    let mut q = false;
    for (i, c) in line.bytes().enumerate() {
        if c == b'"' {
            q = !q;
        }
        if c == b'@' && !q {
            return i;
        }
    }
    panic!("no symbol in {}", line)
}
/// reads a symbol name (optionally quoted) at the start of `s`
fn take_name(s: &str) -> (String, &str) {
    if s.starts_with('"') {
        let e = s[1..].find('"').unwrap() + 1;
        (s[1..e].to_string(), &s[e + 1..])
    } else {
        let e = s.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-')).unwrap_or(s.len());
        (s[..e].to_string(), &s[e..])
    }
}

pub struct Lex<'a> {
    s: &'a str,
    p: usize,
}
impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Lex<'a> {
        Lex { s, p: 0 }
    }
    fn ws(&mut self) {
        let b = self.s.as_bytes();
        while self.p < b.len() {
            match b[self.p] {
                b' ' | b'\n' | b'\t' | b'\r' => self.p += 1,
                b';' => {
                    self.p = memchr(b, b'\n', self.p);
                }
                b'/' if self.s[self.p..].starts_with("/*") => {
                    self.p = self.s[self.p..].find("*/").map_or(b.len(), |i| self.p + i + 2);
                }
                _ => break,
            }
        }
    }
    fn scan(&self, p: usize) -> usize {
        let b = self.s.as_bytes();
        if p >= b.len() {
            return p;
        }
        let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' || c == b'+';
        let c = b[p];
        match c {
            b'%' | b'@' | b'!' | b'#' => {
                if p + 1 < b.len() && b[p + 1] == b'"' {
                    let mut q = p + 2;
                    while b[q] != b'"' {
                        q += 1;
                    }
                    q + 1
                } else {
                    let mut q = p + 1;
                    while q < b.len() && word(b[q]) {
                        q += 1;
                    }
                    q
                }
            }
            b'"' => {
                let mut q = p + 1;
                while b[q] != b'"' {
                    q += 1;
                }
                q + 1
            }
            b'c' if p + 1 < b.len() && b[p + 1] == b'"' => {
                let mut q = p + 2;
                while b[q] != b'"' {
                    q += 1;
                }
                q + 1
            }
            _ if word(c) => {
                let mut q = p + 1;
                while q < b.len() && word(b[q]) {
                    q += 1;
                }
                q
            }
            _ => p + 1,
        }
    }
    fn next(&mut self) -> &'a str {
        self.ws();
        let q = self.scan(self.p);
        let r = &self.s[self.p..q];
        self.p = q;
        r
    }
    /// next token without consuming anything (not even white space)
    fn peek(&mut self) -> &'a str {
        let save = self.p;
        self.ws();
        let r = &self.s[self.p..self.scan(self.p)];
        self.p = save;
        r
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.peek() == t {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) {
        let n = self.next();
        if n != t {
            let a = self.p.saturating_sub(80);
            panic!("expected {:?} got {:?} near {:?}", t, n, &self.s[a..(self.p + 60).min(self.s.len())]);
        }
    }
    /// after "(" was consumed: skip to the matching ")"
    fn skip_parens(&mut self) {
        let mut d = 1;
        while d > 0 {
            match self.next() {
                "(" => d += 1,
                ")" => d -= 1,
                "" => panic!("eof in parens"),
                _ => {}
            }
        }
    }
    fn eol(&mut self) {
        // discard until end of line
        let b = self.s.as_bytes();
        self.p = memchr(b, b'\n', self.p);
    }
    fn same_line_comma(&mut self) -> bool {
        let b = self.s.as_bytes();
        let mut q = self.p;
        while q < b.len() && b[q] == b' ' {
            q += 1;
        }
        if q < b.len() && b[q] == b',' {
            self.p = q + 1;
            true
        } else {
            false
        }
    }
    fn is_ty(t: &str) -> bool {
        matches!(t, "void" | "ptr" | "float" | "double" | "[" | "{" | "<" | "metadata" | "half" | "label" | "token")
            || (t.len() > 1 && t.starts_with('i') && t[1..].bytes().all(|c| c.is_ascii_digit()))
    }
    fn ty(&mut self) -> Ty {
        let t = self.next();
        let r = match t {
            "void" => Ty::Void,
            "ptr" => {
                if self.peek() == "addrspace" {
                    self.next();
                    self.expect("(");
                    self.skip_parens();
                }
                Ty::Ptr
            }
            "float" => Ty::F32,
            "double" => Ty::F64,
            "metadata" | "label" | "token" => Ty::Meta,
            "[" => {
                let n: u64 = self.next().parse().unwrap();
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Arr(n, Box::new(t))
            }
            "{" => self.struct_ty(false),
            "<" => {
                if self.eat("{") {
                    let t = self.struct_ty(true);
                    self.expect(">");
                    t
                } else {
                    let n: u32 = self.next().parse().unwrap();
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Ty::Vec(n, Box::new(t))
                }
            }
            _ if t.starts_with('i') => Ty::Int(t[1..].parse().unwrap_or_else(|_| panic!("type {:?}", t))),
            _ => panic!("type {:?} near {:?}", t, &self.s[self.p.saturating_sub(80)..(self.p + 40).min(self.s.len())]),
        };
        r
    }
    fn struct_ty(&mut self, packed: bool) -> Ty {
        let mut v = vec![];
        if !self.eat("}") {
            loop {
                v.push(self.ty());
                if self.eat("}") {
                    break;
                }
                self.expect(",");
            }
        }
        Ty::Struct(packed, v)
    }
}

struct FnParser<'a> {
    m: &'a Module,
    lx: Lex<'a>,
    regs: HashMap<&'a str, u32>,
    nregs: u32,
    blocks: HashMap<&'a str, u32>,
}

fn hexval(c: u8) -> u8 {
    match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        b'A'..=b'F' => c - b'A' + 10,
        _ => panic!("hex"),
    }
}
fn cstr(t: &str) -> Vec<u8> {
    let b = t.as_bytes();
    let mut o = vec![];
    let mut i = 2;
    while i < b.len() - 1 {
        if b[i] == b'\\' && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else if b[i] == b'\\' {
            o.push(hexval(b[i + 1]) << 4 | hexval(b[i + 2]));
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

impl<'a> FnParser<'a> {
    fn reg(&mut self, name: &'a str) -> u32 {
        if let Some(&r) = self.regs.get(name) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(name, r);
        r
    }
    fn block(&mut self, name: &'a str) -> u32 {
        let n = self.blocks.len() as u32;
        *self.blocks.entry(name).or_insert(n)
    }
    fn label(&mut self) -> u32 {
        self.lx.expect("label");
        let t = self.lx.next();
        self.block(&t[1..])
    }
    fn sym(&self, t: &str) -> u32 {
        let n = t[1..].trim_matches('"');
        *self.m.by_name.get(n).unwrap_or_else(|| panic!("unknown symbol {}", t))
    }
    /// parses a value of the given type
    fn value(&mut self, ty: &Ty) -> Opd {
        let t = self.lx.next();
        match t.as_bytes()[0] {
            b'%' => return Opd::Reg(self.reg(t)),
            b'@' => return Opd::C(sym_addr(self.sym(t)) as u128),
            _ => {}
        }
        match t {
            "true" => Opd::C(1),
            "false" => Opd::C(0),
            "null" | "none" => Opd::C(0),
            "undef" | "poison" | "zeroinitializer" => self.zero(ty),
            "splat" => {
                self.lx.expect("(");
                let et = self.lx.ty();
                let v = self.value(&et);
                self.lx.expect(")");
                let n = match ty {
                    Ty::Vec(n, _) => *n as usize,
                    _ => panic!(),
                };
                self.pack(ty, vec![v; n])
            }
            "[" | "{" => {
                let close = if t == "[" { "]" } else { "}" };
                let v = self.elems(close);
                Opd::Agg(std::rc::Rc::new(v))
            }
            "<" => {
                if self.lx.eat("{") {
                    let v = self.elems("}");
                    self.lx.expect(">");
                    Opd::Agg(std::rc::Rc::new(v))
                } else {
                    let v = self.elems(">");
                    self.pack(ty, v)
                }
            }
            "getelementptr" => {
                loop {
                    let t = self.lx.peek();
                    if t == "(" {
                        self.lx.next();
                        break;
                    }
                    self.lx.next();
                    if t == "inrange" {
                        self.lx.expect("(");
                        self.lx.skip_parens();
                    }
                }
                let ety = self.lx.ty();
                self.lx.expect(",");
                let pt = self.lx.ty();
                let base = self.value(&pt);
                let (off, terms) = self.gep_indices(ety);
                self.lx.expect(")");
                assert!(terms.is_empty());
                match base {
                    Opd::C(b) => Opd::C((b as u64).wrapping_add(off as u64) as u128),
                    _ => panic!("gep constant"),
                }
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" => {
                self.lx.expect("(");
                let ft = self.lx.ty();
                let v = self.value(&ft);
                self.lx.expect("to");
                let tt = self.lx.ty();
                self.lx.expect(")");
                match v {
                    Opd::C(x) => Opd::C(x & mask(tt.bits())),
                    v => v,
                }
            }
            "add" | "sub" => {
                while self.lx.peek() != "(" {
                    self.lx.next();
                }
                self.lx.expect("(");
                let ft = self.lx.ty();
                let a = self.value(&ft);
                self.lx.expect(",");
                let ft2 = self.lx.ty();
                let b = self.value(&ft2);
                self.lx.expect(")");
                match (a, b) {
                    (Opd::C(x), Opd::C(y)) => Opd::C((if t == "add" { x.wrapping_add(y) } else { x.wrapping_sub(y) }) & mask(ft.bits())),
                    _ => panic!(),
                }
            }
            _ if t.starts_with("c\"") => Opd::Agg(std::rc::Rc::new(cstr(t).into_iter().map(|b| Opd::C(b as u128)).collect())),
            _ => match ty {
                Ty::F64 | Ty::F32 => {
                    if let Some(h) = t.strip_prefix("f0x") {
                        return Opd::C(u64::from_str_radix(h, 16).unwrap() as u128);
                    }
                    let bits = if let Some(h) = t.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).unwrap()
                    } else if t == "+inf" || t == "inf" {
                        f64::INFINITY.to_bits()
                    } else if t == "-inf" {
                        f64::NEG_INFINITY.to_bits()
                    } else if t == "+qnan" || t == "qnan" || t == "nan" {
                        crate::expr::NAN64
                    } else if t == "-qnan" {
                        crate::expr::NAN64 | 1 << 63
                    } else {
                        t.parse::<f64>().unwrap_or_else(|_| panic!("float {:?}", t)).to_bits()
                    };
                    if *ty == Ty::F64 {
                        Opd::C(bits as u128)
                    } else {
                        Opd::C((f64::from_bits(bits) as f32).to_bits() as u128)
                    }
                }
                Ty::Int(w) => {
                    let v: i128 = if let Ok(x) = t.parse::<i128>() {
                        x
                    } else {
                        t.parse::<u128>().unwrap_or_else(|_| panic!("int {:?} near {:?}", t, &self.lx.s[self.lx.p.saturating_sub(100)..self.lx.p])) as i128
                    };
                    Opd::C(v as u128 & mask(*w))
                }
                _ => panic!("value {:?} of type {:?} near {:?}", t, ty, &self.lx.s[self.lx.p.saturating_sub(100)..self.lx.p]),
            },
        }
    }
    fn zero(&self, ty: &Ty) -> Opd {
        match ty {
            Ty::Struct(_, ts) => Opd::Agg(std::rc::Rc::new(ts.iter().map(|t| self.zero(t)).collect())),
            Ty::Arr(n, t) if *n <= 64 => Opd::Agg(std::rc::Rc::new((0..*n).map(|_| self.zero(t)).collect())),
            _ => Opd::C(0),
        }
    }
    fn pack(&self, ty: &Ty, v: Vec<Opd>) -> Opd {
        let et = ty.field(0);
        let b = et.bits();
        assert!(b * v.len() as u32 <= 128, "vector constant too wide {:?}", ty);
        let mut r = 0u128;
        for (i, x) in v.iter().enumerate() {
            match x {
                Opd::C(k) => r |= (k & mask(b)) << (b * i as u32),
                _ => panic!("vector element"),
            }
        }
        Opd::C(r)
    }
    fn elems(&mut self, close: &str) -> Vec<Opd> {
        let mut v = vec![];
        if self.lx.eat(close) {
            return v;
        }
        loop {
            let t = self.lx.ty();
            v.push(self.value(&t));
            if self.lx.eat(close) {
                return v;
            }
            self.lx.expect(",");
        }
    }
    fn tyval(&mut self) -> (Ty, Opd) {
        let t = self.lx.ty();
        let v = self.value(&t);
        (t, v)
    }
    /// parses ", ty idx, ty idx..." while a comma follows and a type comes next
    fn gep_indices(&mut self, ety: Ty) -> (i64, Vec<(Opd, u32, i64)>) {
        let mut off = 0i64;
        let mut terms = vec![];
        let mut cur: Option<Ty> = None;
        loop {
            let save = self.lx.p;
            if !self.lx.eat(",") {
                break;
            }
            if !Lex::is_ty(self.lx.peek()) {
                self.lx.p = save;
                break;
            }
            let (t, v) = self.tyval();
            match cur.take() {
                None => {
                    let sz = ety.size() as i64;
                    match v {
                        Opd::C(k) => off = off.wrapping_add((crate::expr::sx(k, t.bits()) as i64).wrapping_mul(sz)),
                        v => terms.push((v, t.bits(), sz)),
                    }
                    cur = Some(ety.clone());
                }
                Some(c) => {
                    match (&c, v) {
                        (Ty::Struct(..), Opd::C(k)) => {
                            off += c.field_off(k as usize) as i64;
                            cur = Some(c.field(k as usize).clone());
                        }
                        (_, v) => {
                            let et = c.field(0).clone();
                            let sz = et.size() as i64;
                            match v {
                                Opd::C(k) => off = off.wrapping_add((crate::expr::sx(k, t.bits()) as i64).wrapping_mul(sz)),
                                v => terms.push((v, t.bits(), sz)),
                            }
                            cur = Some(et);
                        }
                    };
                }
            }
        }
        (off, terms)
    }
    /// skips return/parameter attributes; returns byval size when seen
    fn attrs(&mut self) -> Option<u64> {
        let mut byval = None;
        loop {
            let t = self.lx.peek();
            let c = match t.as_bytes().first() {
                Some(c) => *c,
                None => return byval,
            };
            if t == "align" {
                self.lx.next();
                if self.lx.eat("(") {
                    self.lx.skip_parens();
                } else {
                    self.lx.next();
                }
                continue;
            }
            if c == b'"' {
                self.lx.next();
                if self.lx.eat("=") {
                    self.lx.next();
                }
                continue;
            }
            if t.starts_with("f0x") || matches!(t, "inf" | "nan" | "qnan" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "add" | "sub" | "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "asm")
                || t.starts_with("c\"")
            {
                return byval;
            }
            if c.is_ascii_lowercase() && !Lex::is_ty(t) {
                self.lx.next();
                if self.lx.eat("(") {
                    if t == "byval" {
                        byval = Some(self.lx.ty().size());
                        self.lx.expect(")");
                    } else {
                        self.lx.skip_parens();
                    }
                }
                continue;
            }
            return byval;
        }
    }

    fn function(&mut self, name: String, pretty: String) -> Func {
        self.lx.expect("define");
        // return attributes and linkage words up to the type
        loop {
            let t = self.lx.peek();
            if Lex::is_ty(t) {
                break;
            }
            self.lx.next();
            if self.lx.eat("(") {
                self.lx.skip_parens();
            }
            if t == "align" {
                self.lx.next();
            }
        }
        let _ret = self.lx.ty();
        let _name = self.lx.next();
        self.lx.expect("(");
        let mut params = vec![];
        let mut byval = vec![];
        let mut params_unnamed = 0;
        if !self.lx.eat(")") {
            loop {
                if self.lx.eat("...") {
                    self.lx.expect(")");
                    break;
                }
                let t = self.lx.ty();
                let bv = self.attrs();
                let n = self.lx.next();
                assert!(n.starts_with('%'), "param {:?}", n);
                if n[1..].bytes().all(|c| c.is_ascii_digit()) {
                    params_unnamed += 1;
                }
                let r = self.reg(n);
                params.push((t, r));
                byval.push(bv);
                if self.lx.eat(")") {
                    break;
                }
                self.lx.expect(",");
            }
        }
        self.lx.eol();
        // body
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<(u32, Block)> = None;
        loop {
            let t = self.lx.peek();
            if t.is_empty() || t == "}" {
                break;
            }
            // block label?
            let save = self.lx.p;
            let t = self.lx.next();
            let is_label = {
                let b = self.lx.s.as_bytes();
                self.lx.p < b.len() && b[self.lx.p] == b':' && !t.starts_with('%')
            };
            if is_label {
                self.lx.next(); // ':'
                if let Some((id, b)) = cur.take() {
                    put(&mut blocks, id, b);
                }
                let nm = if t.starts_with('"') { t } else { t };
                let id = self.block(nm);
                cur = Some((id, Block { phis: vec![], ins: vec![], name: nm.to_string() }));
                continue;
            }
            self.lx.p = save;
            if cur.is_none() {
                // entry block without a label: LLVM names it by number; nobody jumps to it
                let unnamed = params_unnamed;
                let nm: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
                let id = self.block(nm);
                cur = Some((id, Block { phis: vec![], ins: vec![], name: nm.into() }));
            }
            let b = &mut cur.as_mut().unwrap().1 as *mut Block;
            // the parser needs &mut self; the block is not reachable from self
            self.instruction(unsafe { &mut *b });
        }
        if let Some((id, b)) = cur.take() {
            put(&mut blocks, id, b);
        }
        let blocks = blocks.into_iter().map(|b| b.expect("missing block")).collect();
        Func { name, pretty, params, byval, nregs: self.nregs, blocks }
    }

    fn flags(&mut self) {
        while matches!(
            self.lx.peek(),
            "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast"
        ) {
            self.lx.next();
        }
    }

    fn instruction(&mut self, blk: &mut Block) {
        let mut t = self.lx.next();
        let mut dst = None;
        if t.starts_with('%') {
            dst = Some(self.reg(t));
            self.lx.expect("=");
            t = self.lx.next();
        }
        let d = dst.unwrap_or(u32::MAX);
        let ins = match t {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let op = match t {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "fadd" => BinOp::FAdd,
                    "fsub" => BinOp::FSub,
                    "fmul" => BinOp::FMul,
                    "fdiv" => BinOp::FDiv,
                    _ => BinOp::FRem,
                };
                self.flags();
                let ty = self.lx.ty();
                let a = self.value(&ty);
                self.lx.expect(",");
                let b = self.value(&ty);
                Ins::Bin(d, op, ty, a, b)
            }
            "icmp" => {
                self.flags();
                let p = match self.lx.next() {
                    "eq" => "eq",
                    "ne" => "ne",
                    "ult" => "ult",
                    "ule" => "ule",
                    "ugt" => "ugt",
                    "uge" => "uge",
                    "slt" => "slt",
                    "sle" => "sle",
                    "sgt" => "sgt",
                    "sge" => "sge",
                    x => panic!("icmp {}", x),
                };
                let ty = self.lx.ty();
                let a = self.value(&ty);
                self.lx.expect(",");
                let b = self.value(&ty);
                Ins::ICmp(d, p, ty, a, b)
            }
            "fcmp" => {
                self.flags();
                let p = self.lx.next().to_string();
                let ty = self.lx.ty();
                let a = self.value(&ty);
                self.lx.expect(",");
                let b = self.value(&ty);
                Ins::FCmp(d, p, ty, a, b)
            }
            "fneg" => {
                self.flags();
                let ty = self.lx.ty();
                let a = self.value(&ty);
                Ins::FNeg(d, ty, a)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "ptrtoaddr" | "addrspacecast" => {
                self.flags();
                let (ft, v) = self.tyval();
                self.lx.expect("to");
                let tt = self.lx.ty();
                let op = match t {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    "fpext" | "fptrunc" => CastOp::FpConv,
                    _ => {
                        if ft.bits() > tt.bits() {
                            CastOp::Trunc
                        } else if ft.bits() < tt.bits() {
                            CastOp::ZExt
                        } else {
                            CastOp::Same
                        }
                    }
                };
                Ins::Cast(d, op, ft, tt, v)
            }
            "load" => {
                let at = self.lx.eat("atomic");
                self.lx.eat("volatile");
                let ty = self.lx.ty();
                self.lx.expect(",");
                let (_, p) = self.tyval();
                self.lx.eol();
                Ins::Load(d, ty, p, at)
            }
            "store" => {
                let at = self.lx.eat("atomic");
                self.lx.eat("volatile");
                let (ty, v) = self.tyval();
                self.lx.expect(",");
                let (_, p) = self.tyval();
                self.lx.eol();
                Ins::Store(ty, v, p, at)
            }
            "alloca" => {
                let ty = self.lx.ty();
                let mut n = Opd::C(1);
                if self.lx.same_line_comma() {
                    if Lex::is_ty(self.lx.peek()) {
                        n = self.tyval().1;
                    }
                }
                self.lx.eol();
                Ins::Alloca(d, ty.size(), n)
            }
            "getelementptr" => {
                self.flags();
                if self.lx.eat("inrange") {
                    self.lx.expect("(");
                    self.lx.skip_parens();
                    self.flags();
                }
                let ety = self.lx.ty();
                self.lx.expect(",");
                let (_, b) = self.tyval();
                let (off, terms) = self.gep_indices(ety);
                Ins::Gep(d, b, off, terms)
            }
            "select" => {
                self.flags();
                let (ct, c) = self.tyval();
                self.lx.expect(",");
                let (ty, a) = self.tyval();
                self.lx.expect(",");
                let (_, b) = self.tyval();
                Ins::Select(d, ct, ty, c, a, b)
            }
            "phi" => {
                self.flags();
                let ty = self.lx.ty();
                let mut v = vec![];
                loop {
                    self.lx.expect("[");
                    let x = self.value(&ty);
                    self.lx.expect(",");
                    let l = self.lx.next();
                    let b = self.block(&l[1..]);
                    self.lx.expect("]");
                    v.push((b, x));
                    let save = self.lx.p;
                    if self.lx.same_line_comma() && self.lx.peek() == "[" {
                        continue;
                    }
                    self.lx.p = save;
                    break;
                }
                self.lx.eol();
                blk.phis.push((d, v));
                return;
            }
            "extractvalue" => {
                let (_, a) = self.tyval();
                let idx = self.indices();
                Ins::ExtractValue(d, a, idx)
            }
            "insertvalue" => {
                let (ty, a) = self.tyval();
                self.lx.expect(",");
                let (_, v) = self.tyval();
                let idx = self.indices();
                Ins::InsertValue(d, ty, a, v, idx)
            }
            "extractelement" => {
                let (ty, a) = self.tyval();
                self.lx.expect(",");
                let (_, i) = self.tyval();
                Ins::ExtractElement(d, ty, a, i)
            }
            "insertelement" => {
                let (ty, a) = self.tyval();
                self.lx.expect(",");
                let (_, v) = self.tyval();
                self.lx.expect(",");
                let (_, i) = self.tyval();
                Ins::InsertElement(d, ty, a, v, i)
            }
            "shufflevector" => {
                let (ty, a) = self.tyval();
                self.lx.expect(",");
                let (_, b) = self.tyval();
                self.lx.expect(",");
                let mt = self.lx.ty();
                let n = match mt {
                    Ty::Vec(n, _) => n,
                    _ => panic!(),
                };
                let m = match self.lx.next() {
                    "zeroinitializer" | "poison" | "undef" => vec![0; n as usize],
                    "splat" => {
                        self.lx.expect("(");
                        let (_, v) = self.tyval();
                        self.lx.expect(")");
                        match v {
                            Opd::C(k) => vec![k as u32; n as usize],
                            _ => panic!(),
                        }
                    }
                    "<" => self
                        .elems(">")
                        .into_iter()
                        .map(|o| match o {
                            Opd::C(k) => k as u32,
                            _ => panic!(),
                        })
                        .collect(),
                    x => panic!("shuffle mask {}", x),
                };
                Ins::Shuffle(d, ty, a, b, m)
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                let inv = t == "invoke";
                if t == "tail" || t == "musttail" || t == "notail" {
                    self.lx.expect("call");
                }
                self.call(dst, inv)
            }
            "br" => {
                if self.lx.peek() == "label" {
                    let l = self.label();
                    self.lx.eol();
                    Ins::Br(l)
                } else {
                    let (_, c) = self.tyval();
                    self.lx.expect(",");
                    let a = self.label();
                    self.lx.expect(",");
                    let b = self.label();
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (ty, v) = self.tyval();
                self.lx.expect(",");
                let def = self.label();
                self.lx.expect("[");
                let mut cs = vec![];
                while !self.lx.eat("]") {
                    let (_, k) = self.tyval();
                    self.lx.expect(",");
                    let l = self.label();
                    match k {
                        Opd::C(k) => cs.push((k, l)),
                        _ => panic!(),
                    }
                }
                Ins::Switch(ty, v, def, cs)
            }
            "ret" => {
                let ty = self.lx.ty();
                if ty == Ty::Void {
                    Ins::Ret(None)
                } else {
                    let v = self.value(&ty);
                    Ins::Ret(Some((ty, v)))
                }
            }
            "unreachable" => Ins::Unreachable,
            "resume" => {
                let (_, v) = self.tyval();
                Ins::Resume(v)
            }
            "landingpad" => {
                let _ty = self.lx.ty();
                let mut cleanup = false;
                let mut cl = vec![];
                loop {
                    match self.lx.peek() {
                        "cleanup" => {
                            self.lx.next();
                            cleanup = true;
                        }
                        "catch" => {
                            self.lx.next();
                            self.tyval();
                            cl.push(true);
                        }
                        "filter" => {
                            self.lx.next();
                            self.tyval();
                            cl.push(false);
                        }
                        _ => break,
                    }
                }
                Ins::LandingPad(d, cleanup, cl)
            }
            "atomicrmw" => {
                self.lx.eat("volatile");
                let op = self.lx.next().to_string();
                let (_, p) = self.tyval();
                self.lx.expect(",");
                let (ty, v) = self.tyval();
                self.lx.eol();
                Ins::Rmw(d, op, ty, p, v)
            }
            "cmpxchg" => {
                self.lx.eat("weak");
                self.lx.eat("volatile");
                let (_, p) = self.tyval();
                self.lx.expect(",");
                let (ty, c) = self.tyval();
                self.lx.expect(",");
                let (_, n) = self.tyval();
                self.lx.eol();
                Ins::CmpXchg(d, ty, p, c, n)
            }
            "fence" => {
                self.lx.eol();
                Ins::Fence
            }
            "freeze" => {
                let (_, v) = self.tyval();
                Ins::Freeze(d, v)
            }
            _ => panic!("instruction {:?} near {:?}", t, &self.lx.s[self.lx.p.saturating_sub(60)..(self.lx.p + 60).min(self.lx.s.len())]),
        };
        self.lx.eol();
        blk.ins.push(ins);
    }
    fn indices(&mut self) -> Vec<u32> {
        let mut v = vec![];
        loop {
            let save = self.lx.p;
            if !self.lx.same_line_comma() {
                break;
            }
            match self.lx.peek().parse() {
                Ok(k) => {
                    self.lx.next();
                    v.push(k);
                }
                Err(_) => {
                    self.lx.p = save;
                    break;
                }
            }
        }
        v
    }
    fn call(&mut self, dst: Option<u32>, inv: bool) -> Ins {
        // cc, fast-math flags, return attributes
        loop {
            let t = self.lx.peek();
            if Lex::is_ty(t) {
                break;
            }
            self.lx.next();
            if t == "align" {
                self.lx.next();
            }
            if self.lx.eat("(") {
                self.lx.skip_parens();
            }
        }
        let ret = self.lx.ty();
        // optional function type "(...)"
        if self.lx.peek() == "(" {
            self.lx.next();
            self.lx.skip_parens();
        }
        let t = self.lx.next();
        let callee = if t == "asm" {
            let mut txt = self.lx.next();
            while !txt.starts_with('"') {
                txt = self.lx.next();
            }
            self.lx.expect(",");
            self.lx.next();
            if txt != "\"\"" {
                panic!("inline asm {}", txt);
            }
            Callee::AsmNop
        } else if t.starts_with('@') {
            Callee::Sym(self.sym(t))
        } else if t.starts_with('%') {
            Callee::Ind(Opd::Reg(self.reg(t)))
        } else {
            panic!("callee {:?}", t)
        };
        self.lx.expect("(");
        let mut args = vec![];
        if !self.lx.eat(")") {
            loop {
                let ty = self.lx.ty();
                if ty == Ty::Meta {
                    // skip metadata argument
                    let mut d = 0;
                    loop {
                        let t = self.lx.peek();
                        if d == 0 && (t == "," || t == ")") {
                            break;
                        }
                        self.lx.next();
                        if t == "(" {
                            d += 1;
                        }
                        if t == ")" {
                            d -= 1;
                        }
                    }
                    args.push((Ty::Meta, Opd::C(0)));
                } else {
                    let bv = self.attrs();
                    assert!(bv.is_none(), "byval call argument");
                    let v = self.value(&ty);
                    args.push((ty, v));
                }
                if self.lx.eat(")") {
                    break;
                }
                self.lx.expect(",");
            }
        }
        let mut unwind = None;
        if inv {
            // attributes / bundles until "to"
            loop {
                let t = self.lx.next();
                if t == "to" {
                    break;
                }
                if t.is_empty() {
                    panic!("invoke without to");
                }
            }
            let n = self.label();
            self.lx.expect("unwind");
            let u = self.label();
            unwind = Some((n, u));
        }
        Ins::Call(Box::new(Call { callee, args, ret, dst, unwind }))
    }
}

fn put(v: &mut Vec<Option<Block>>, id: u32, b: Block) {
    while v.len() <= id as usize {
        v.push(None);
    }
    v[id as usize] = Some(b);
}
