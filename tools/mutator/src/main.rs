//! dev tool: rewrites a crate's sources so that every mutant is compiled in, selected at run time by MU=<id>
//! usage: mutator SRC_DIR OUT_DIR BLACKLIST > list of mutants
use proc_macro2::{LineColumn, Span};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

struct M<'a> {
    file: &'a str,
    text: &'a str,
    lines: Vec<usize>,
    next: &'a mut usize,
    black: &'a HashSet<usize>,
    // position -> inserted (order key, text)
    ins: Vec<(usize, i64, String)>,
    seq: i64,
    log: Vec<String>,
    place: usize,
}

impl<'a> M<'a> {
    fn off(&self, p: LineColumn) -> usize {
        let ls = self.lines[p.line - 1];
        self.text[ls..].char_indices().nth(p.column).map(|x| ls + x.0).unwrap_or(self.text.len())
    }
    fn range(&self, s: Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
    fn src(&self, s: Span) -> String {
        let (a, b) = self.range(s);
        self.text[a..b].to_string()
    }
    /// every mutant of one node; call before descending so that outer prefixes precede inner ones
    fn mutate(&mut self, s: Span, muts: Vec<(String, String)>) {
        let (a, b) = self.range(s);
        for (what, m) in muts {
            let id = *self.next;
            *self.next += 1;
            if self.black.contains(&id) {
                continue;
            }
            self.seq += 1;
            let m1 = if m.contains("//") { m.clone() } else { m.replace('\n', " ") };
            self.ins.push((a, self.seq, format!("(if crate::mu::on({}) {{ {} }} else {{ ", id, m1)));
            self.ins.push((b, -self.seq, " })".into()));
            let o = self.text[a..b].replace('\n', " ");
            self.log.push(format!("{}\t{}:{}\t{}\t{}\t=>\t{}", id, self.file, s.start().line, what, o, m1.replace('\n', " ")));
        }
    }
    fn statement(&mut self, s: Span, what: &str) {
        let (a, b) = self.range(s);
        let id = *self.next;
        *self.next += 1;
        if self.black.contains(&id) {
            return;
        }
        self.seq += 1;
        self.ins.push((a, self.seq, format!("if !crate::mu::on({}) {{ ", id)));
        self.ins.push((b, -self.seq, " }".into()));
        let o = self.text[a..b].replace('\n', " ");
        self.log.push(format!("{}\t{}:{}\t{}\t{}\t=>\t(deleted)", id, self.file, s.start().line, what, o));
    }
}

fn swap_name(n: &str) -> Vec<String> {
    let v: &[&str] = match n {
        "x" => &["y"],
        "y" => &["z", "x"],
        "z" => &["x"],
        "min" => &["max"],
        "max" => &["min"],
        "is_some" => &["is_none"],
        "is_none" => &["is_some"],
        "is_ok" => &["is_err"],
        "is_err" => &["is_ok"],
        "first" => &["last"],
        "last" => &["first"],
        "floor" => &["ceil"],
        "ceil" => &["floor"],
        "sin" => &["cos"],
        "cos" => &["sin"],
        "any" => &["all"],
        "all" => &["any"],
        "push_back" => &["push_front"],
        "size_x" => &["size_y"],
        "size_y" => &["size_z"],
        "size_z" => &["size_x"],
        "a" => &["b"],
        "b" => &["c"],
        "c" => &["a"],
        "is_empty" => &[],
        "from_be_bytes" => &["from_le_bytes"],
        "from_le_bytes" => &["from_be_bytes"],
        "to_be_bytes" => &["to_le_bytes"],
        "to_le_bytes" => &["to_be_bytes"],
        "starts_with" => &["contains"],
        _ => &[],
    };
    v.iter().map(|s| s.to_string()).collect()
}

impl<'a, 'ast> Visit<'ast> for M<'a> {
    fn visit_item_const(&mut self, _: &'ast ItemConst) {}
    fn visit_item_static(&mut self, _: &'ast ItemStatic) {}
    fn visit_pat(&mut self, _: &'ast Pat) {}
    fn visit_type(&mut self, _: &'ast Type) {}
    fn visit_attribute(&mut self, _: &'ast Attribute) {}
    fn visit_generic_argument(&mut self, _: &'ast GenericArgument) {}
    fn visit_expr_repeat(&mut self, e: &'ast ExprRepeat) {
        self.visit_expr(&e.expr);
    }
    fn visit_item_mod(&mut self, m: &'ast ItemMod) {
        if m.ident == "tests" || m.ident == "test" {
            return;
        }
        visit::visit_item_mod(self, m);
    }
    fn visit_stmt(&mut self, st: &'ast Stmt) {
        if let Stmt::Expr(e, Some(_)) = st {
            match e {
                Expr::Assign(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Try(_) | Expr::Continue(_) | Expr::Break(_) => self.statement(st.span(), "delete statement"),
                Expr::Return(_) => self.statement(st.span(), "delete return"),
                Expr::Binary(_) => self.statement(st.span(), "delete compound"),
                _ => {}
            }
        }
        visit::visit_stmt(self, st);
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        let place = std::mem::replace(&mut self.place, 0) > 0;
        match e {
            Expr::Binary(b) => {
                let (l, r) = (self.src(b.left.span()), self.src(b.right.span()));
                let to: &[&str] = match b.op {
                    BinOp::Lt(_) => &["<=", ">"],
                    BinOp::Le(_) => &["<", ">"],
                    BinOp::Gt(_) => &[">=", "<"],
                    BinOp::Ge(_) => &[">", "<"],
                    BinOp::Eq(_) => &["!="],
                    BinOp::Ne(_) => &["=="],
                    BinOp::And(_) => &["||"],
                    BinOp::Or(_) => &["&&"],
                    BinOp::Add(_) => &["-"],
                    BinOp::Sub(_) => &["+"],
                    BinOp::Mul(_) => &["/"],
                    BinOp::Div(_) => &["*"],
                    BinOp::Rem(_) => &["/"],
                    BinOp::AddAssign(_) => &["-="],
                    BinOp::SubAssign(_) => &["+="],
                    BinOp::MulAssign(_) => &["/="],
                    BinOp::DivAssign(_) => &["*="],
                    BinOp::BitAnd(_) => &["|"],
                    BinOp::BitOr(_) => &["&"],
                    BinOp::Shl(_) => &[">>"],
                    BinOp::Shr(_) => &["<<"],
                    _ => &[],
                };
                let mut m: Vec<(String, String)> = to.iter().map(|o| (format!("op {}", o), format!("{} {} {}", l, o, r))).collect();
                if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) {
                    m.push(("only left".into(), l.clone()));
                    m.push(("only right".into(), r.clone()));
                }
                self.mutate(b.span(), m);
                if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_)) {
                    self.place = 1;
                }
                self.visit_expr(&b.left);
                self.visit_expr(&b.right);
                return;
            }
            Expr::Assign(a) => {
                self.place = 1;
                self.visit_expr(&a.left);
                self.visit_expr(&a.right);
                return;
            }
            Expr::Reference(r) => {
                if r.mutability.is_some() {
                    self.place = 1;
                }
                self.visit_expr(&r.expr);
                return;
            }
            Expr::Lit(l) => {
                let t = self.src(l.span());
                let m: Vec<(String, String)> = match &l.lit {
                    Lit::Int(i) => match i.base10_parse::<u64>() {
                        Ok(0) => vec![("int".into(), format!("1{}", i.suffix()))],
                        Ok(n) => vec![("int".into(), format!("{}{}", n + 1, i.suffix())), ("int".into(), format!("{}{}", n - 1, i.suffix()))],
                        _ => vec![],
                    },
                    Lit::Float(_) => match t.parse::<f64>() {
                        Ok(x) => vec![("float".into(), if x == 0.0 { "1.0".into() } else { format!("({} * 1.5)", t) })],
                        _ => vec![],
                    },
                    Lit::Bool(b) => vec![("bool".into(), format!("{}", !b.value))],
                    _ => vec![],
                };
                self.mutate(l.span(), m);
                return;
            }
            Expr::Unary(u) => {
                let t = self.src(u.expr.span());
                match u.op {
                    UnOp::Not(_) => self.mutate(u.span(), vec![("drop !".into(), t)]),
                    UnOp::Neg(_) => self.mutate(u.span(), vec![("drop -".into(), t)]),
                    _ => {
                        self.place = place as usize;
                    }
                }
                self.visit_expr(&u.expr);
                return;
            }
            Expr::If(i) => {
                if !matches!(*i.cond, Expr::Let(_)) {
                    self.mutate(i.cond.span(), vec![("cond true".into(), "true".into()), ("cond false".into(), "false".into())]);
                }
            }
            Expr::MethodCall(c) => {
                let (a, b) = self.range(c.span());
                let (ma, mb) = self.range(c.method.span());
                if !place {
                    let mut v = vec![];
                    for n in swap_name(&c.method.to_string()) {
                        v.push((format!("method {}", n), format!("{}{}{}", &self.text[a..ma], n, &self.text[mb..b])));
                    }
                    for k in 1..c.args.len() {
                        let (p, q) = (self.range(c.args[k - 1].span()), self.range(c.args[k].span()));
                        v.push(("swap args".into(), format!("{}{}{}{}{}", &self.text[a..p.0], &self.text[q.0..q.1], &self.text[p.1..q.0], &self.text[p.0..p.1], &self.text[q.1..b])));
                    }
                    self.mutate(c.span(), v);
                }
            }
            Expr::Call(c) => {
                let (a, b) = self.range(c.span());
                if !place {
                    let mut v = vec![];
                    for k in 1..c.args.len() {
                        let (p, q) = (self.range(c.args[k - 1].span()), self.range(c.args[k].span()));
                        v.push(("swap args".into(), format!("{}{}{}{}{}", &self.text[a..p.0], &self.text[q.0..q.1], &self.text[p.1..q.0], &self.text[p.0..p.1], &self.text[q.1..b])));
                    }
                    self.mutate(c.span(), v);
                }
                // the function itself is no value
                for x in &c.args {
                    self.visit_expr(x);
                }
                return;
            }
            Expr::Field(f) => {
                if !place {
                    let (a, _) = self.range(f.span());
                    let (ma, _) = self.range(f.member.span());
                    if let Member::Named(n) = &f.member {
                        let v = swap_name(&n.to_string()).into_iter().map(|n| (format!("field {}", n), format!("{}{}", &self.text[a..ma], n))).collect();
                        self.mutate(f.span(), v);
                    }
                    self.place = 1; // no rewriting below, moves out of the base
                } else {
                    self.place = 1;
                }
                self.visit_expr(&f.base);
                self.place = 0;
                return;
            }
            Expr::Index(i) => {
                self.place = 1;
                self.visit_expr(&i.expr);
                self.place = 0;
                self.visit_expr(&i.index);
                return;
            }
            Expr::Range(_) | Expr::Path(_) => {
                visit::visit_expr(self, e);
                return;
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}

fn files(d: &Path, out: &mut Vec<PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(d).unwrap().map(|x| x.unwrap().path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
            out.push(p);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, out) = (PathBuf::from(&a[1]), PathBuf::from(&a[2]));
    let black: HashSet<usize> = std::fs::read_to_string(&a[3]).unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let mut fs = vec![];
    files(&src, &mut fs);
    let mut next = 1;
    for p in fs {
        let text = std::fs::read_to_string(&p).unwrap();
        let rel = p.strip_prefix(&src).unwrap();
        let ast = syn::parse_file(&text).unwrap();
        let mut lines = vec![0];
        lines.extend(text.match_indices('\n').map(|x| x.0 + 1));
        let name = rel.display().to_string();
        let mut m = M { file: &name, text: &text, lines, next: &mut next, black: &black, ins: vec![], seq: 0, log: vec![], place: 0 };
        m.visit_file(&ast);
        for l in &m.log {
            println!("{}", l.replace('\r', ""));
        }
        let mut by: BTreeMap<usize, Vec<(i64, String)>> = BTreeMap::new();
        for (p, k, t) in m.ins {
            by.entry(p).or_default().push((k, t));
        }
        let mut o = String::new();
        let mut last = 0;
        for (p, mut v) in by {
            o += &text[last..p];
            // closings (negative, innermost first) before openings (positive, outermost first)
            v.sort_by_key(|x| x.0);
            for (_, t) in v {
                o += &t;
            }
            last = p;
        }
        o += &text[last..];
        if name == "lib.rs" {
            o += r#"
pub mod mu {
    use std::sync::atomic::{AtomicU8, AtomicUsize, Ordering::Relaxed};
    static M: AtomicUsize = AtomicUsize::new(usize::MAX);
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: AtomicU8 = AtomicU8::new(0);
    static HIT: [AtomicU8; 40000] = [Z; 40000];
    extern "C" { fn atexit(f: extern "C" fn()) -> i32; }
    extern "C" fn dump() {
        if let Ok(p) = std::env::var("MU_COVER") {
            let s: Vec<String> = (0..40000).filter(|i| HIT[*i].load(Relaxed) != 0).map(|i| i.to_string()).collect();
            let _ = std::fs::write(p, s.join("\n"));
        }
    }
    #[cold]
    fn init() -> usize {
        let v = std::env::var("MU").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
        if std::env::var("MU_COVER").is_ok() { if M.load(Relaxed) == usize::MAX { unsafe { atexit(dump); } } M.store(usize::MAX - 1, Relaxed); return usize::MAX - 1; }
        M.store(v, Relaxed);
        v
    }
    #[inline]
    pub fn on(id: usize) -> bool {
        let mut m = M.load(Relaxed);
        if m >= usize::MAX - 1 {
            if m == usize::MAX { m = init(); }
            if m == usize::MAX - 1 { HIT[id].store(1, Relaxed); }
        }
        m == id
    }
}
"#;
        }
        let dst = out.join(rel);
        std::fs::create_dir_all(dst.parent().unwrap()).unwrap();
        if std::fs::read_to_string(&dst).ok().as_deref() != Some(&o) {
            std::fs::write(&dst, o).unwrap();
        }
    }
    eprintln!("{} mutants, {} blacklisted", next - 1, black.len());
}
