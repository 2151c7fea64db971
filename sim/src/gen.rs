//! Generator of HDDL texts whose verdict is known by construction, and of damaged files.
use crate::choice::Rng;

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Expect {
    Accept,
    /// rejected, the message contains the text and (if known) names the line
    Reject(String, Option<u32>),
    Unknown,
}

type Ty = Option<usize>;

#[derive(Clone)]
pub struct Dom {
    pub tag: String,
    pub typed: bool,
    pub types: Vec<(String, Option<usize>)>,
    pub consts: Vec<(String, Ty)>,
    pub preds: Vec<(String, Vec<Ty>)>,
    pub tasks: Vec<(String, Vec<Ty>)>,
    pub actions: Vec<Act>,
    pub methods: Vec<Meth>,
    pub funcs: Vec<(String, Vec<Ty>)>,
    pub reqs: Vec<&'static str>,
    pub recursive: bool,
    pub partial: bool,
}
#[derive(Clone)]
pub struct Act {
    name: String,
    params: Vec<Ty>,
    pre: Option<F>,
    eff: Option<F>,
}
#[derive(Clone)]
pub struct Meth {
    name: String,
    task: usize,
    params: Vec<Ty>,
    targs: Vec<usize>,
    pre: Option<F>,
    subs: Vec<(Callee, Vec<usize>)>,
    ordered: bool,
    order: Vec<(usize, usize)>,
    cons: Option<Vec<(bool, usize, usize)>>,
    /// no task network at all
    bare: bool,
}
#[derive(Clone, Copy)]
pub enum Callee {
    T(usize),
    A(usize),
}
#[derive(Clone)]
pub enum F {
    P(usize, Vec<usize>),
    Not(Box<F>),
    And(Vec<F>),
    Or(Vec<F>),
    Xor(Vec<F>),
    Eq(usize, usize),
    /// for all, or exists
    Q(bool, Vec<Ty>, Box<F>),
    Prob(Vec<(&'static str, F)>),
    Nil,
}
/// arguments from here on are constants, and variables of a quantifier
const CONST: usize = 1000;
const QVAR: usize = 2000;
/// beginnings of blocks that go wrong at the token after the @; the rest does not matter.
/// X and G stand for names that are used nowhere else, K for the formulas below, H for the task networks
const STUMBLE_DOMAIN: [&str; 34] = [
    "@G", "@(", ":requirements @G", ":types a - @(", ":types @(", ":types a b - c @<", ":constants @<", ":constants X - @1.5",
    ":predicates @G", ":predicates ( @(", ":predicates ( p ?x - @)", ":predicates ( p ?x @(", ":functions @G", ":functions ( @(",
    ":functions ( f ?x @(", ":task @(", ":task X @G", ":task X :parameters @G", ":task X :parameters ( ) @G", ":task X :parameters ( @(",
    ":method @(", ":method X @(", ":method X :parameters @G", ":method X :parameters ( ?x ) @G", ":method X :parameters ( ) :task @G",
    ":method X :parameters ( ) :task ( @(", ":method X :parameters ( ) :task ( t @(", ":method X :parameters ( ) :task ( t ) @G",
    ":method X :parameters ( ) :task ( t ) @)", ":method X :parameters ( ) :task ( t ) :precondition ( p ) @G", ":action @(",
    ":action X :parameters ( ) @G", ":action X :parameters ( ) :precondition ( ) @G", ":action X :parameters ( ) :precondition ( p ) :effect ( ) @G",
];
const STUMBLE_FORMULA: [&str; 23] = [
    "@G", "( @<", "( = @(", "( = ?a @(", "( = ?a ?b @G", "( forall @G", "( forall ( ?x ) ( p ) @G", "( exists @G", "( exists ( ?x - @(",
    "( exists ( ) ( p ) @G", "( not ( p ) @G", "( probabilistic @G", "( probabilistic 1.5 @)", "( probabilistic 1 ( @)", "( probabilistic 0.5 @G",
    "( p ?x @(", "( @imply", "( @$bad$", "( p @1.5", "( probabilistic @99999999999999999999", "( @when$", "( p ?x - @(", "( @12",
];
const STUMBLE_NETWORK: [&str; 42] = [
    ":subtasks @G", ":subtasks ( @<", ":subtasks ( and @G", ":subtasks ( and ( @(", ":subtasks ( and ( k ( @(", ":tasks ( and ( k ( a ?x @(",
    ":subtasks ( and ( k ( a ?x ) @G", ":subtasks ( and ( k ?x @(", ":subtasks ( and ( k @<", ":subtasks ( k ?x @<", ":subtasks ( k ( a ) @G",
    ":ordered-subtasks ( and ( k ) ) @G", ":ordered-subtasks ( ) :constraints @G", ":ordered-tasks ( ) :constraints ( ) @G",
    ":ordered-subtasks ( and ( k ) ) :constraints ( = a b ) @G", ":ordered-subtasks @G", ":subtasks ( ) @G", ":subtasks ( ) :ordering @G", ":subtasks ( ) :ordering ( @G",
    ":subtasks ( ) :ordering ( < @(", ":subtasks ( ) :order ( < a @(", ":subtasks ( ) :ordering ( and @G", ":subtasks ( ) :ordering ( and ( @G",
    ":subtasks ( ) :ordering ( and ( < @(", ":subtasks ( ) :ordering ( and ( < a b @(", ":subtasks ( ) :ordering ( ) @G",
    ":subtasks ( ) :constraints @G", ":subtasks ( ) :constraints ( @G", ":subtasks ( ) :constraints ( and @G", ":subtasks ( ) :constraints ( and ( @G",
    ":subtasks ( ) :constraints ( not @G", ":subtasks ( ) :constraints ( not ( @G", ":subtasks ( ) :constraints ( not ( = @(",
    ":subtasks ( ) :constraints ( not ( = a @(", ":subtasks ( ) :constraints ( not ( = a b @G", ":subtasks ( ) :constraints ( and ( not ( = a b ) @G",
    ":subtasks ( ) :constraints ( = @(", ":subtasks ( ) :constraints ( = a @(", ":subtasks ( ) :constraints ( = a b @G",
    ":subtasks ( ) :constraints ( and ( = a b @G", ":subtasks ( ) :constraints ( ) @G", "@G",
];
const STUMBLE_PROBLEM: [&str; 10] = [
    "@G", "@<", ":requirements @G", ":objects X - @(", ":objects @(", ":init @G", ":init ( @(", ":init ( p ?x @(", ":htn :parameters @G", ":htn :parameters ( @(",
];
const NUMBERS: [&str; 9] = ["0.5", "1", "0.25", "0.0", "1.", "100", "0", "00.750", "3.14159"];

/// text writer that knows the current line and varies the layout
pub struct W {
    pub s: String,
    pub line: u32,
    r: Rng,
    style: usize,
    crlf: bool,
}
impl W {
    pub fn new(mut r: Rng) -> W {
        // 4: everything on one line, 5: every token on a line of its own
        let style = [0, 1, 2, 3, 0, 1, 2, 3, 0, 1, 2, 3, 4, 5][r.below(14)];
        let crlf = r.chance(10);
        W { s: String::new(), line: 1, r, style, crlf }
    }
    fn raw(&mut self, t: &str) {
        self.line += t.matches('\n').count() as u32;
        self.s.push_str(t);
    }
    pub fn nl(&mut self) {
        let e = if self.style == 4 {
            " "
        } else if self.crlf {
            "\r\n"
        } else {
            "\n"
        };
        self.raw(e);
    }
    fn gap(&mut self) {
        match self.style {
            0 | 4 => self.raw(" "),
            5 => self.nl(),
            1 => {
                if self.r.chance(15) {
                    self.nl()
                } else {
                    self.raw(" ")
                }
            }
            2 => {
                let k = self.r.below(10);
                match k {
                    0 => {
                        self.raw(" ; note ( ) ? : é");
                        self.nl();
                    }
                    1 => self.raw("\t"),
                    2 => {
                        self.nl();
                        self.raw("  ")
                    }
                    _ => self.raw(" "),
                }
            }
            _ => {
                let k = self.r.below(4);
                if k == 0 {
                    self.nl();
                    self.nl();
                } else {
                    self.raw("  ")
                }
            }
        }
    }
    /// one token, preceded by a gap; returns its line
    pub fn t(&mut self, t: &str) -> u32 {
        let tight = self.s.ends_with('(') || t == ")";
        if !self.s.is_empty() && !tight {
            self.gap();
        }
        let l = self.line;
        self.raw(t);
        l
    }
    fn open(&mut self) {
        self.t("(");
    }
    fn close(&mut self) {
        self.t(")");
    }
    fn block(&mut self) {
        self.nl();
        if self.style == 2 && self.r.chance(20) {
            self.raw("; (:action ghost");
            self.nl();
        }
        self.raw("(");
    }
}

#[derive(Clone, Debug, Default)]
pub struct Opt {
    pub recursive: bool,
    pub partial: bool,
    pub size: usize,
    pub defect: bool,
}

fn sub(d: &Dom, a: Ty, b: Ty) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(mut x), Some(y)) => loop {
            if x == y {
                return true;
            }
            match d.types[x].1 {
                Some(p) => x = p,
                None => return false,
            }
        },
        _ => false,
    }
}

impl Dom {
    pub fn new(r: &mut Rng, tag: &str, o: &Opt) -> Dom {
        let typed = r.chance(70);
        let sz = o.size.max(1);
        let mut d = Dom {
            tag: tag.into(), typed, types: vec![], consts: vec![], preds: vec![], tasks: vec![], actions: vec![], methods: vec![],
            funcs: vec![], reqs: vec![], recursive: o.recursive, partial: o.partial,
        };
        for q in [":typing", ":hierarchy", ":negative-preconditions", ":method-preconditions", ":equality", ":strips", ":universal-preconditions"] {
            if r.chance(50) {
                d.reqs.push(q);
            }
        }
        if typed {
            let n = r.range(1, 2 + sz);
            for i in 0..n {
                let p = if i > 0 && r.chance(60) { Some(r.below(i)) } else { None };
                d.types.push((format!("ty{i}_{tag}"), p));
            }
        }
        let ty = |r: &mut Rng, d: &Dom| if d.typed { Some(r.below(d.types.len())) } else { None };
        for i in 0..r.below(3) {
            let t = ty(r, &d);
            d.consts.push((format!("c{i}_{tag}"), t));
        }
        for i in 0..r.range(1, 2 + sz) {
            let n = r.below(3);
            let v = (0..n).map(|_| ty(r, &d)).collect();
            d.preds.push((format!("p{i}_{tag}"), v));
        }
        if r.chance(20) {
            for i in 0..r.below(3) {
                let n = r.below(3);
                let v = (0..n).map(|_| ty(r, &d)).collect();
                d.funcs.push((format!("f{i}_{tag}"), v));
            }
        }
        for i in 0..r.range(1, 1 + sz) {
            let n = r.below(3);
            let v = (0..n).map(|_| ty(r, &d)).collect();
            d.tasks.push((format!("t{i}_{tag}"), v));
        }
        for i in 0..r.range(1, 1 + sz) {
            let n = r.below(3);
            let mut params: Vec<Ty> = (0..n).map(|_| ty(r, &d)).collect();
            let pre = if r.chance(70) { Some(d.formula(r, &mut params, 0)) } else { None };
            let eff = if r.chance(80) { Some(d.effect(r, &mut params)) } else { None };
            d.actions.push(Act { name: format!("a{i}_{tag}"), params, pre, eff });
        }
        for i in 0..r.range(1, 1 + 2 * sz) {
            let task = r.below(d.tasks.len());
            let mut params: Vec<Ty> = d.tasks[task].1.clone();
            let targs = (0..params.len()).collect();
            let pre = if r.chance(40) { Some(d.formula(r, &mut params, 0)) } else { None };
            let ordered = !o.partial || r.chance(60);
            let n = if r.chance(20) { 0 } else { r.range(1, 3) };
            let mut subs = vec![];
            for _ in 0..n {
                let higher = d.tasks.len() - 1 - task;
                let c = if r.chance(50) && (o.recursive || higher > 0) {
                    if o.recursive {
                        Callee::T(r.below(d.tasks.len()))
                    } else {
                        Callee::T(task + 1 + r.below(higher))
                    }
                } else {
                    Callee::A(r.below(d.actions.len()))
                };
                let sig = d.sig(c);
                let args = sig.iter().map(|t| d.arg(r, &mut params, *t)).collect();
                subs.push((c, args));
            }
            let mut order = vec![];
            if !ordered && subs.len() > 1 && r.chance(70) {
                for a in 0..subs.len() {
                    for b in a + 1..subs.len() {
                        if r.chance(50) {
                            order.push((a, b));
                        }
                    }
                }
            }
            let cons = if r.chance(15) { Some((0..r.below(3)).map(|_| (r.chance(60), d.any(r, &params), d.any(r, &params))).collect()) } else { None };
            let bare = subs.is_empty() && pre.is_some() && !o.recursive && r.chance(40);
            d.methods.push(Meth { name: format!("m{i}_{tag}"), task, params, targs, pre, subs, ordered, order, cons, bare });
        }
        d
    }
    fn sig(&self, c: Callee) -> Vec<Ty> {
        match c {
            Callee::T(i) => self.tasks[i].1.clone(),
            Callee::A(i) => self.actions[i].params.clone(),
        }
    }
    /// any parameter or constant
    fn any(&self, r: &mut Rng, params: &[Ty]) -> usize {
        if !params.is_empty() && (self.consts.is_empty() || r.chance(70)) {
            r.below(params.len())
        } else if !self.consts.is_empty() {
            CONST + r.below(self.consts.len())
        } else {
            QVAR + r.below(2)
        }
    }
    fn arg(&self, r: &mut Rng, params: &mut Vec<Ty>, t: Ty) -> usize {
        let fit: Vec<usize> = (0..self.consts.len()).filter(|i| sub(self, self.consts[*i].1, t)).collect();
        if !fit.is_empty() && r.chance(15) {
            return CONST + *r.pick(&fit);
        }
        let ok: Vec<usize> = (0..params.len()).filter(|i| sub(self, params[*i], t)).collect();
        if !ok.is_empty() && r.chance(80) {
            *r.pick(&ok)
        } else {
            params.push(t);
            params.len() - 1
        }
    }
    fn atom(&self, r: &mut Rng, params: &mut Vec<Ty>) -> F {
        let p = r.below(self.preds.len());
        let sig = self.preds[p].1.clone();
        F::P(p, sig.iter().map(|t| self.arg(r, params, *t)).collect())
    }
    fn formula(&self, r: &mut Rng, params: &mut Vec<Ty>, depth: usize) -> F {
        if r.chance(4) {
            return F::Nil;
        }
        match if depth > 2 { 0 } else { r.below(10) } {
            0..=2 => self.atom(r, params),
            3 => F::Not(Box::new(self.formula(r, params, depth + 1))),
            4 | 5 => F::And((0..r.below(4)).map(|_| self.formula(r, params, depth + 1)).collect()),
            6 => F::Or((0..r.range(1, 2)).map(|_| self.formula(r, params, depth + 1)).collect()),
            7 => F::Xor((0..r.below(3)).map(|_| self.formula(r, params, depth + 1)).collect()),
            8 => F::Eq(self.any(r, params), self.any(r, params)),
            _ => self.quantified(r, params, depth),
        }
    }
    fn quantified(&self, r: &mut Rng, params: &mut Vec<Ty>, depth: usize) -> F {
        let p = r.below(self.preds.len());
        let mut vars = vec![];
        let mut args = vec![];
        for t in self.preds[p].1.clone() {
            if r.chance(60) {
                args.push(QVAR + vars.len());
                vars.push(t);
            } else {
                args.push(self.arg(r, params, t));
            }
        }
        let mut f = F::P(p, args);
        match r.below(4) {
            0 => f = F::Not(Box::new(f)),
            1 => f = F::And(vec![f, self.formula(r, params, depth + 1)]),
            2 => f = F::Or(vec![self.formula(r, params, depth + 1), f]),
            _ => {}
        }
        F::Q(r.chance(50), vars, Box::new(f))
    }
    fn effect(&self, r: &mut Rng, params: &mut Vec<Ty>) -> F {
        let one = |r: &mut Rng, params: &mut Vec<Ty>| {
            let a = self.atom(r, params);
            if r.chance(40) {
                F::Not(Box::new(a))
            } else {
                a
            }
        };
        if r.chance(5) {
            return F::Nil;
        }
        let mut v = vec![];
        for _ in 0..r.below(4) {
            v.push(match r.below(12) {
                0 => F::Nil,
                1 => self.quantified(r, params, 2),
                2 => F::Prob((0..r.below(3)).map(|_| (*r.pick(&NUMBERS), one(r, params))).collect()),
                3 => F::Xor((0..r.below(3)).map(|_| one(r, params)).collect()),
                _ => one(r, params),
            });
        }
        F::And(v)
    }
    fn word(&self, x: usize) -> String {
        if x >= QVAR {
            format!("?q{}", x - QVAR)
        } else if x >= CONST {
            self.consts[x - CONST].0.clone()
        } else {
            format!("?x{x}")
        }
    }
    fn tyname(&self, t: Ty) -> Option<String> {
        t.map(|i| self.types[i].0.clone())
    }
    /// typed variables; those of the same type may share its name
    fn vars(&self, w: &mut W, prefix: &str, p: &[Ty]) {
        for (i, t) in p.iter().enumerate() {
            w.t(&format!("{prefix}{i}"));
            if let Some(n) = self.tyname(*t) {
                if i + 1 < p.len() && p[i + 1] == *t && w.r.chance(50) {
                    continue;
                }
                w.t("-");
                w.t(&n);
            }
        }
    }
    fn params(&self, w: &mut W, p: &[Ty], dup: bool) -> u32 {
        let mut line = 0;
        w.open();
        self.vars(w, "?x", p);
        if dup {
            line = w.t("?x0");
            if let Some(n) = self.tyname(p[0]) {
                w.t("-");
                w.t(&n);
            }
        }
        w.close();
        line
    }
    fn emit_f(&self, w: &mut W, f: &F) {
        w.open();
        match f {
            F::P(p, a) => {
                w.t(&self.preds[*p].0);
                for x in a {
                    w.t(&self.word(*x));
                }
            }
            F::Nil => {}
            F::Xor(v) => {
                w.t("oneof");
                v.iter().for_each(|f| self.emit_f(w, f))
            }
            F::Eq(a, b) => {
                w.t("=");
                w.t(&self.word(*a));
                w.t(&self.word(*b));
            }
            F::Q(all, v, f) => {
                w.t(if *all { "forall" } else { "exists" });
                w.open();
                self.vars(w, "?q", v);
                w.close();
                self.emit_f(w, f);
            }
            F::Prob(v) => {
                w.t("probabilistic");
                for (n, f) in v {
                    w.t(n);
                    self.emit_f(w, f);
                }
            }
            F::Not(f) => {
                w.t("not");
                self.emit_f(w, f)
            }
            F::And(v) => {
                w.t("and");
                v.iter().for_each(|f| self.emit_f(w, f))
            }
            F::Or(v) => {
                w.t("or");
                v.iter().for_each(|f| self.emit_f(w, f))
            }
        }
        w.close();
    }
    fn callee(&self, c: Callee) -> &str {
        match c {
            Callee::T(i) => &self.tasks[i].0,
            Callee::A(i) => &self.actions[i].name,
        }
    }
    /// renders the domain, with at most one defect
    pub fn render(&self, r: &mut Rng, defect: bool) -> (String, Expect) {
        let mut w = W::new(r.fork());
        let mut kind = if defect { 1 + r.below(34) } else { 0 };
        if kind > 31 {
            kind = 28;
        }
        let badk = self.misfits();
        let ai = r.below(self.actions.len());
        let mi = r.below(self.methods.len());
        let ti = r.below(self.tasks.len());
        let pi = r.below(self.preds.len());
        let ghost = format!("ghost{}_{}", r.below(1000), self.tag);
        // defects that need something the domain may not have
        if (kind == 2 || kind == 13) && !self.typed {
            kind = 1;
        }
        if kind == 5 && self.reqs.is_empty() {
            kind = 1;
        }
        if kind == 10 && self.actions[ai].params.is_empty() {
            kind = 6;
        }
        // what the additional, faulty action or method of the kinds from 18 on is made of
        let sig_ok = |v: &Vec<Ty>| -> Option<(usize, usize)> {
            // a position and a type that does not fit there
            for (i, t) in v.iter().enumerate() {
                if let Some(j) = (0..self.types.len()).find(|j| !sub(self, Some(*j), *t)) {
                    return Some((i, j));
                }
            }
            None
        };
        let wide: Vec<usize> = (0..self.preds.len()).filter(|i| !self.preds[*i].1.is_empty()).collect();
        let badp: Vec<usize> = wide.iter().copied().filter(|i| sig_ok(&self.preds[*i].1).is_some()).collect();
        let mut callees: Vec<Callee> = (0..self.tasks.len()).map(Callee::T).collect();
        callees.extend((0..self.actions.len()).map(Callee::A));
        let badc: Vec<Callee> = callees.iter().copied().filter(|c| sig_ok(&self.sig(*c)).is_some()).collect();
        let badt: Vec<usize> = (0..self.tasks.len()).filter(|t| sig_ok(&self.tasks[*t].1).is_some()).collect();
        let possible = match kind {
            19 | 26 => !wide.is_empty(),
            21 => self.typed && !badp.is_empty(),
            23 => self.typed && !badc.is_empty(),
            24 => self.typed && !badt.is_empty(),
            25 => self.typed,
            31 => !badk.is_empty(),
            _ => true,
        };
        if !possible {
            kind = 18;
        }
        let mut e = if kind == 0 { Expect::Accept } else { Expect::Unknown };
        if w.r.chance(8) {
            for _ in 0..w.r.range(1, 4) {
                w.nl();
            }
        }
        if w.style != 4 && w.r.chance(15) {
            w.raw("; header comment (define (problem x)");
            w.nl();
        }
        w.t("(");
        w.t("define");
        w.open();
        w.t("domain");
        w.t(&format!("dom_{}", self.tag));
        w.close();
        if !self.reqs.is_empty() {
            w.block();
            w.t(":requirements");
            for q in &self.reqs {
                w.t(q);
            }
            if kind == 5 {
                w.t(self.reqs[0]);
                e = Expect::Reject("requirement".into(), None);
            }
            w.close();
        }
        if self.typed {
            w.block();
            w.t(":types");
            // children with parents first, then the roots
            for (n, p) in &self.types {
                if let Some(p) = p {
                    w.t(n);
                    w.t("-");
                    w.t(&self.types[*p].0.clone());
                }
            }
            if kind == 13 {
                w.t(&format!("{ghost}x"));
                w.t("-");
                w.t(&format!("{ghost}y"));
                w.t(&format!("{ghost}y"));
                w.t("-");
                w.t(&format!("{ghost}x"));
                e = Expect::Reject("yclic".into(), None);
            }
            for (n, p) in &self.types {
                if p.is_none() {
                    w.t(n);
                }
            }
            w.close();
        }
        if !self.consts.is_empty() {
            w.block();
            w.t(":constants");
            for (n, t) in &self.consts {
                w.t(n);
                if let Some(t) = self.tyname(*t) {
                    w.t("-");
                    w.t(&t);
                }
            }
            w.close();
        }
        let functions = |w: &mut W| {
            w.block();
            w.t(":functions");
            for (n, v) in &self.funcs {
                w.open();
                w.t(n);
                self.vars(w, "?v", v);
                w.close();
            }
            w.close();
        };
        let functions_first = w.r.chance(30);
        if !self.funcs.is_empty() && functions_first {
            functions(&mut w);
        }
        w.block();
        w.t(":predicates");
        for (i, (n, v)) in self.preds.iter().enumerate() {
            w.open();
            w.t(n);
            self.vars(&mut w, "?v", v);
            if kind == 2 && i == pi {
                w.t("?vg");
                w.t("-");
                let l = w.t(&ghost);
                e = Expect::Reject(ghost.clone(), Some(l));
            }
            w.close();
        }
        if kind == 4 {
            w.open();
            let l = w.t(&self.preds[pi].0.clone());
            w.close();
            e = Expect::Reject(self.preds[pi].0.clone(), Some(l));
        }
        if kind == 14 {
            let l = w.t(")");
            let l2 = w.t(":nonsense");
            let _ = l;
            e = Expect::Reject("nonsense".into(), Some(l2));
            w.open();
        }
        w.close();
        if !self.funcs.is_empty() && !functions_first {
            functions(&mut w);
        }
        for (i, (n, v)) in self.tasks.iter().enumerate() {
            w.block();
            w.t(":task");
            w.t(n);
            w.t(":parameters");
            if kind == 25 && i == ti {
                w.open();
                w.t("?vg");
                w.t("-");
                let l = w.t(&ghost);
                w.close();
                e = Expect::Reject(format!("type {ghost} is not defined"), Some(l));
            } else {
                self.params(&mut w, v, false);
            }
            w.close();
            if kind == 7 && i == ti {
                w.block();
                w.t(":task");
                let l = w.t(n);
                w.t(":parameters");
                self.params(&mut w, v, false);
                w.close();
                e = Expect::Reject(n.clone(), Some(l));
            }
        }
        let methods_first = w.r.chance(30);
        for phase in 0..2 {
            if (phase == 0) == methods_first {
                for (i, m) in self.methods.iter().enumerate() {
                    self.emit_method(&mut w, m, if i == mi { kind } else { 0 }, &ghost, &mut e);
                    if kind == 8 && i == mi {
                        let l = self.emit_method(&mut w, m, 0, &ghost, &mut e);
                        e = Expect::Reject(m.name.clone(), Some(l));
                    }
                    if i == mi && matches!(kind, 18 | 20 | 22 | 23 | 24 | 27) {
                        self.faulty_method(&mut w, kind, &ghost, &callees, &badc, &badt, &sig_ok, &mut e);
                    }
                }
            } else {
                for (i, a) in self.actions.iter().enumerate() {
                    self.emit_action(&mut w, a, if i == ai { kind } else { 0 }, &ghost, &mut e);
                    if kind == 6 && i == ai {
                        let l = self.emit_action(&mut w, a, 0, &ghost, &mut e);
                        e = Expect::Reject(a.name.clone(), Some(l));
                    }
                    if i == ai && matches!(kind, 19 | 21 | 26) {
                        self.faulty_action(&mut w, kind, &ghost, &wide, &badp, &sig_ok, &mut e);
                    }
                    if i == ai && kind == 28 {
                        self.stumble(&mut w, false, &ghost, &mut e);
                    }
                    if i == ai && matches!(kind, 29..=31) {
                        self.deep_action(&mut w, kind, &ghost, &badk, &mut e);
                    }
                }
            }
        }
        if kind == 15 {
            // the block is never closed
            w.nl();
            let l = w.line;
            e = Expect::Reject(String::new(), Some(l));
            return (w.s, e);
        }
        if kind == 16 {
            let l = w.t("$bad$id");
            e = Expect::Reject("$bad$id".into(), Some(l));
        }
        if kind == 17 {
            let l = w.t(&ghost);
            e = Expect::Reject(ghost.clone(), Some(l));
        }
        w.nl();
        w.raw(")");
        w.nl();
        (w.s, e)
    }
    /// an additional block with a syntactic error
    fn stumble(&self, w: &mut W, problem: bool, ghost: &str, e: &mut Expect) {
        let mut t = String::new();
        let how = w.r.below(10);
        let own: &[&str] = if problem { &STUMBLE_PROBLEM } else { &STUMBLE_DOMAIN };
        if how < 3 {
            t.push_str(*w.r.pick(own));
        } else if how < 6 {
            t.push_str(match (problem, w.r.below(3)) {
                (true, _) => ":goal ",
                (_, 0) => ":action X :parameters ( ) :precondition ",
                (_, 1) => ":action X :parameters ( ?x ) :effect ",
                _ => ":method X :parameters ( ) :task ( t ) :precondition ",
            });
            for _ in 0..w.r.below(4) {
                t.push_str(*w.r.pick(&["( and ", "( or ( p ) ", "( oneof ", "( not ", "( forall ( ?y ) ", "( exists ( ) ", "( probabilistic 0.5 ", "( and ( ) "]));
            }
            t.push_str(*w.r.pick(&STUMBLE_FORMULA));
        } else {
            t.push_str(match (problem, w.r.below(2)) {
                (true, 0) => ":htn ",
                (true, _) => ":htn :parameters ( ?v ) ",
                (_, 0) => ":method X :parameters ( ) :task ( t ) :precondition ( p ) ",
                _ => ":method X :parameters ( ) :task ( t ) ",
            });
            // see KNOWN_FINDINGS: no partial order where there is recursion
            let ok: Vec<&str> = STUMBLE_NETWORK.iter().copied().filter(|t| !self.recursive || !wordy(t)).collect();
            t.push_str(*w.r.pick(&ok));
        }
        w.block();
        let x = format!("x_{ghost}");
        for k in t.split_whitespace() {
            let bad = k.starts_with('@');
            let k = match k.trim_start_matches('@') {
                "X" => x.as_str(),
                "G" => ghost,
                k => k,
            };
            let l = w.t(k);
            if bad {
                *e = Expect::Reject(k.trim_start_matches('?').to_string(), Some(l));
            }
        }
        for _ in 0..w.r.below(5) {
            w.close();
        }
    }
    /// an additional action with an undefined or wrongly used predicate deep inside a formula
    fn deep_action(&self, w: &mut W, kind: usize, ghost: &str, badk: &[(usize, usize, usize)], e: &mut Expect) {
        let c = if kind == 31 { badk[w.r.below(badk.len())] } else { (w.r.below(self.preds.len()), 0, 0) };
        let (name, sig) = self.preds[c.0].clone();
        w.block();
        w.t(":action");
        w.t(&format!("x_{ghost}"));
        w.t(":parameters");
        self.params(w, &sig, false);
        let pre = w.r.chance(50);
        w.t(if pre { ":precondition" } else { ":effect" });
        let mut n = 0;
        for _ in 0..w.r.below(5) {
            // what is bound by a quantifier is not checked for its type
            let how = w.r.below(if kind == 31 { 5 } else { 7 });
            w.open();
            n += 1;
            match how {
                0 => {
                    w.t("and");
                }
                1 => {
                    w.t("or");
                }
                2 => {
                    w.t("oneof");
                }
                3 => {
                    w.t("not");
                }
                4 => {
                    w.t("probabilistic");
                    let k = *w.r.pick(&NUMBERS);
                    w.t(k);
                }
                _ => {
                    w.t(if how == 5 { "forall" } else { "exists" });
                    w.open();
                    self.vars(w, "?q", &sig);
                    w.close();
                }
            }
        }
        w.open();
        if kind == 29 {
            let l = w.t(ghost);
            *e = Expect::Reject(ghost.to_string(), Some(l));
        } else {
            let l = w.t(&name);
            for i in 0..sig.len() {
                if kind == 31 && i == c.1 {
                    let (n, t) = self.consts[c.2].clone();
                    let l = w.t(&n);
                    *e = Expect::Reject(format!("of type '{}', but found '{}'", self.tyname(sig[i]).unwrap(), self.tyname(t).unwrap()), Some(l));
                } else {
                    w.t(&format!("?x{i}"));
                }
            }
            if kind == 30 {
                w.t("?x0");
                *e = Expect::Reject(format!("predicate {name} takes {} parameters, but {} are given", sig.len(), sig.len() + 1), Some(l));
            }
        }
        for _ in 0..n + 1 {
            w.close();
        }
        w.close();
    }
    /// predicate, position and constant that does not fit there
    fn misfits(&self) -> Vec<(usize, usize, usize)> {
        let mut v = vec![];
        for (p, (_, sig)) in self.preds.iter().enumerate() {
            for (i, t) in sig.iter().enumerate() {
                for (c, (_, k)) in self.consts.iter().enumerate() {
                    if !sub(self, *k, *t) {
                        v.push((p, i, c));
                    }
                }
            }
        }
        v
    }
    /// an additional action whose formula is wrong in one argument
    #[allow(clippy::too_many_arguments)]
    fn faulty_action(&self, w: &mut W, kind: usize, ghost: &str, wide: &[usize], badp: &[usize], sig_ok: &dyn Fn(&Vec<Ty>) -> Option<(usize, usize)>, e: &mut Expect) {
        let p = if kind == 21 { badp[w.r.below(badp.len())] } else { wide[w.r.below(wide.len())] };
        let (name, sig) = self.preds[p].clone();
        let mut params = sig.clone();
        let mut at = w.r.below(sig.len());
        if kind == 21 {
            let (i, j) = sig_ok(&sig).unwrap();
            at = i;
            params[i] = Some(j);
        }
        w.block();
        w.t(":action");
        w.t(&format!("x_{ghost}"));
        w.t(":parameters");
        self.params(w, &params, false);
        let pre = w.r.chance(50);
        w.t(if pre { ":precondition" } else { ":effect" });
        let wrap = w.r.below(4);
        w.open();
        if wrap > 0 {
            w.t("and");
            w.open();
            if wrap > 2 {
                w.t("not");
                w.open();
            }
        }
        w.t(&name);
        for i in 0..sig.len() {
            if i == at && kind == 19 {
                let l = w.t(&format!("?{ghost}"));
                *e = Expect::Reject(format!("parameter {ghost} is not defined"), Some(l));
            } else if i == at && kind == 26 {
                let l = w.t(ghost);
                *e = Expect::Reject(format!("{ghost} is not defined"), Some(l));
            } else {
                let l = w.t(&format!("?x{i}"));
                if i == at {
                    let (want, got) = (self.tyname(sig[i]).unwrap(), self.tyname(params[i]).unwrap());
                    *e = Expect::Reject(format!("of type '{want}', but found '{got}'"), Some(l));
                }
            }
        }
        if wrap > 0 {
            if wrap > 2 {
                w.close();
            }
            w.close();
        }
        w.close();
        w.close();
    }
    /// an additional method that is wrong in one place
    #[allow(clippy::too_many_arguments)]
    fn faulty_method(&self, w: &mut W, kind: usize, ghost: &str, callees: &[Callee], badc: &[Callee], badt: &[usize], sig_ok: &dyn Fn(&Vec<Ty>) -> Option<(usize, usize)>, e: &mut Expect) {
        let t = if kind == 24 { badt[w.r.below(badt.len())] } else { w.r.below(self.tasks.len()) };
        let cyclic = kind == 18;
        // no recursion where the domain is to have none, nor together with a partial order
        let loose = cyclic || self.partial && w.r.chance(50);
        let fits = |c: &Callee| matches!(c, Callee::A(_)) || self.recursive && !loose;
        let callees: Vec<Callee> = callees.iter().copied().filter(|c| fits(c)).collect();
        let badc: Vec<Callee> = badc.iter().copied().filter(|c| fits(c)).collect();
        let mut kind = kind;
        if kind == 23 && badc.is_empty() {
            kind = 20;
        }
        let c = if kind == 23 { badc[w.r.below(badc.len())] } else { callees[w.r.below(callees.len())] };
        let tsig = self.tasks[t].1.clone();
        let csig = self.sig(c);
        let mut params = tsig.clone();
        params.extend(csig.iter().copied());
        let mut at = usize::MAX;
        if kind == 24 {
            let (i, j) = sig_ok(&tsig).unwrap();
            at = i;
            params[i] = Some(j);
        }
        if kind == 23 {
            let (i, j) = sig_ok(&csig).unwrap();
            at = i;
            params[tsig.len() + i] = Some(j);
        }
        w.block();
        w.t(":method");
        w.t(&format!("x_{ghost}"));
        w.t(":parameters");
        self.params(w, &params, false);
        w.t(":task");
        w.open();
        let l = w.t(&self.tasks[t].0);
        for i in 0..tsig.len() {
            let l = w.t(&format!("?x{i}"));
            if kind == 24 && i == at {
                let (want, got) = (self.tyname(tsig[i]).unwrap(), self.tyname(params[i]).unwrap());
                *e = Expect::Reject(format!("of type '{want}', but found '{got}'"), Some(l));
            }
        }
        if kind == 27 {
            // one argument too many
            if params.is_empty() {
                w.t("?x0");
            } else {
                let k = w.r.below(params.len());
                w.t(&format!("?x{k}"));
            }
            *e = Expect::Reject(format!("Task {} takes {} parameters, but {} are given", self.tasks[t].0, tsig.len(), tsig.len() + 1), Some(l));
        }
        w.close();
        w.t(if loose { ":subtasks" } else { ":ordered-subtasks" });
        let n = if cyclic { w.r.range(2, 4) } else { w.r.range(1, 3) };
        let bad = if kind == 23 { 0 } else { w.r.below(n) };
        let ids = cyclic || w.r.chance(50);
        w.open();
        w.t("and");
        for k in 0..n {
            w.open();
            if ids {
                w.t(&format!("k{k}z"));
                w.open();
            }
            // the others are correct
            let (c, off) = if k == bad || cyclic || !fits(&Callee::T(t)) { (c, tsig.len()) } else { (Callee::T(t), 0) };
            let faulty = k == bad;
            let sig = self.sig(c);
            let l = w.t(self.callee(c));
            for i in 0..sig.len() {
                let a = w.t(&format!("?x{}", off + i));
                if kind == 23 && faulty && i == at {
                    let (want, got) = (self.tyname(sig[i]).unwrap(), self.tyname(params[off + i]).unwrap());
                    *e = Expect::Reject(format!("of type '{want}', but found '{got}'"), Some(a));
                }
            }
            if faulty && kind == 20 {
                let a = w.t(&format!("?{ghost}"));
                *e = Expect::Reject(format!("parameter {ghost} is not defined"), Some(a));
            }
            if faulty && kind == 22 && !params.is_empty() {
                w.t("?x0");
                *e = Expect::Reject(format!("Task {} takes {} parameters, but {} are given", self.callee(c), sig.len(), sig.len() + 1), Some(l));
            } else if faulty && kind == 22 {
                let a = w.t(&format!("?{ghost}"));
                *e = Expect::Reject(format!("parameter {ghost} is not defined"), Some(a));
            }
            if ids {
                w.close();
            }
            w.close();
        }
        w.close();
        if cyclic {
            let l = w.t(":ordering");
            *e = Expect::Reject("ordering is cyclic".into(), Some(l));
            w.open();
            w.t("and");
            // a cycle through some of them, in any order of writing
            let len = w.r.range(2, n);
            let mut edges: Vec<(usize, usize)> = (0..len).map(|i| (i, (i + 1) % len)).collect();
            for i in (1..edges.len()).rev() {
                let j = w.r.below(i + 1);
                edges.swap(i, j);
            }
            for (a, b) in edges {
                w.open();
                w.t("<");
                w.t(&format!("k{a}z"));
                w.t(&format!("k{b}z"));
                w.close();
            }
            w.close();
        }
        w.close();
    }
    fn emit_action(&self, w: &mut W, a: &Act, kind: usize, ghost: &str, e: &mut Expect) -> u32 {
        w.block();
        w.t(":action");
        let line = w.t(&a.name);
        w.t(":parameters");
        let l = self.params(w, &a.params, kind == 10);
        if kind == 10 {
            *e = Expect::Reject("'x0'".into(), Some(l));
        }
        if kind == 1 {
            w.t(":precondition");
            w.open();
            let l = w.t(ghost);
            w.close();
            *e = Expect::Reject(ghost.to_string(), Some(l));
        } else if kind == 11 {
            w.t(":precondition");
            w.open();
            let p = &self.preds[0];
            let l = w.t(&p.0);
            for _ in 0..p.1.len() + 1 {
                if let Some(c) = self.consts.first() {
                    w.t(&c.0);
                } else if !a.params.is_empty() {
                    w.t("?x0");
                } else {
                    w.t("?zz");
                }
            }
            w.close();
            let _ = l;
            let known = !(a.params.is_empty() && self.consts.is_empty());
            *e = Expect::Reject(if known { p.0.clone() } else { String::new() }, None);
        } else if let Some(f) = &a.pre {
            w.t(":precondition");
            self.emit_f(w, f);
        }
        if let Some(f) = &a.eff {
            w.t(":effect");
            self.emit_f(w, f);
        }
        w.close();
        line
    }
    fn emit_method(&self, w: &mut W, m: &Meth, kind: usize, ghost: &str, e: &mut Expect) -> u32 {
        w.block();
        w.t(":method");
        let line = w.t(&m.name);
        w.t(":parameters");
        self.params(w, &m.params, false);
        w.t(":task");
        w.open();
        if kind == 3 {
            let l = w.t(ghost);
            *e = Expect::Reject(ghost.to_string(), Some(l));
        } else {
            w.t(&self.tasks[m.task].0);
        }
        for x in &m.targs {
            w.t(&format!("?x{x}"));
        }
        if kind == 12 {
            w.t("?x0");
            w.t("?x0");
            w.t("?x0");
            *e = Expect::Reject("parameters".into(), None);
        }
        w.close();
        if let Some(f) = &m.pre {
            w.t(":precondition");
            self.emit_f(w, f);
        }
        let ids = !m.ordered || w.r.chance(50);
        if kind == 9 {
            // an undefined subtask
            w.t(":ordered-subtasks");
            w.open();
            w.t("and");
            w.open();
            let l = w.t(ghost);
            w.close();
            w.close();
            *e = Expect::Reject(ghost.to_string(), Some(l));
            w.close();
            return line;
        }
        if m.bare {
            w.close();
            return line;
        }
        let subs: Vec<(&str, Vec<String>)> = m.subs.iter().map(|(c, a)| (self.callee(*c), a.iter().map(|x| self.word(*x)).collect())).collect();
        self.network(w, m.ordered, &subs, &m.order, ids, &m.cons);
        w.close();
        line
    }
    /// subtasks, ordering and constraints, in one of their spellings
    fn network(&self, w: &mut W, ordered: bool, subs: &[(&str, Vec<String>)], order: &[(usize, usize)], ids: bool, cons: &Option<Vec<(bool, usize, usize)>>) {
        let other = w.r.chance(20);
        w.t(match (ordered, other) {
            (true, false) => ":ordered-subtasks",
            (true, true) => ":ordered-tasks",
            (false, false) => ":subtasks",
            (false, true) => ":tasks",
        });
        w.open();
        let single = subs.len() == 1 && w.r.chance(50);
        if !single && (!subs.is_empty() || w.r.chance(30)) {
            w.t("and");
        }
        for (i, (c, args)) in subs.iter().enumerate() {
            if !single {
                w.open();
            }
            if ids {
                w.t(&format!("id{i}z"));
                w.open();
            }
            w.t(c);
            for x in args {
                w.t(x);
            }
            if ids {
                w.close();
            }
            if !single {
                w.close();
            }
        }
        w.close();
        let mut cons = cons.as_ref();
        if ordered {
            if let Some(c) = cons {
                self.constraints(w, c);
            }
            return;
        }
        if cons.is_some() && w.r.chance(50) {
            self.constraints(w, cons.take().unwrap());
        }
        if !order.is_empty() {
            w.t(if other { ":order" } else { ":ordering" });
            w.open();
            // those that come after the same subtask may share a pair of parentheses
            let mut groups: Vec<(usize, Vec<usize>)> = vec![];
            let join = w.r.chance(30);
            for (a, b) in order {
                match groups.last_mut() {
                    Some(g) if g.0 == *a && join => g.1.push(*b),
                    _ => groups.push((*a, vec![*b])),
                }
            }
            let single = groups.len() == 1 && w.r.chance(50);
            if !single {
                w.t("and");
            }
            for (a, v) in groups {
                if !single {
                    w.open();
                }
                w.t("<");
                w.t(&format!("id{a}z"));
                for b in v {
                    w.t(&format!("id{b}z"));
                }
                if !single {
                    w.close();
                }
            }
            w.close();
        } else if w.r.chance(15) {
            w.t(":ordering");
            w.open();
            if w.r.chance(30) {
                w.t("and");
            }
            w.close();
        }
        if let Some(c) = cons {
            self.constraints(w, c);
        }
    }
    fn constraints(&self, w: &mut W, c: &[(bool, usize, usize)]) {
        w.t(":constraints");
        w.open();
        let single = c.len() == 1 && w.r.chance(50);
        if !single && (!c.is_empty() || w.r.chance(30)) {
            w.t("and");
        }
        for (eq, a, b) in c {
            if !single {
                w.open();
            }
            if !eq {
                w.t("not");
                w.open();
            }
            w.t("=");
            w.t(&self.word(*a));
            w.t(&self.word(*b));
            if !eq {
                w.close();
            }
            if !single {
                w.close();
            }
        }
        w.close();
    }
    /// a problem for this domain, with at most one defect
    pub fn problem(&self, r: &mut Rng, ptag: &str, defect: bool) -> (String, Expect) {
        let mut w = W::new(r.fork());
        let mut kind = if defect { 1 + r.below(20) } else { 0 };
        if kind > 16 {
            kind = 15;
        }
        let badk = self.misfits();
        if kind == 16 && badk.is_empty() {
            kind = 15;
        }
        let ghost = format!("phantom{}_{}", r.below(1000), ptag);
        let mut e = if kind == 0 { Expect::Accept } else { Expect::Unknown };
        if w.r.chance(8) {
            for _ in 0..w.r.range(1, 4) {
                w.nl();
            }
        }
        if w.style != 4 && w.r.chance(10) {
            w.raw("; (define (domain x)");
            w.nl();
        }
        w.t("(");
        w.t("define");
        w.open();
        w.t("problem");
        w.t(&format!("prob_{ptag}"));
        w.close();
        w.open();
        w.t("domain");
        w.t(&format!("dom_{}", self.tag));
        w.close();
        let sig_ok = |v: &Vec<Ty>| -> Option<(usize, usize)> {
            for (i, t) in v.iter().enumerate() {
                if let Some(j) = (0..self.types.len()).find(|j| !sub(self, Some(*j), *t)) {
                    return Some((i, j));
                }
            }
            None
        };
        let badp: Vec<usize> = (0..self.preds.len()).filter(|i| sig_ok(&self.preds[*i].1).is_some()).collect();
        let mut callees: Vec<Callee> = (0..self.tasks.len()).map(Callee::T).collect();
        callees.extend((0..self.actions.len()).map(Callee::A));
        let badc: Vec<Callee> = callees.iter().copied().filter(|c| sig_ok(&self.sig(*c)).is_some()).collect();
        let widec: Vec<Callee> = callees.iter().copied().filter(|c| !self.sig(*c).is_empty()).collect();
        if (kind == 10 && (!self.typed || badc.is_empty())) || (kind == 12 && (!self.typed || badp.is_empty())) || (kind == 13 && widec.is_empty()) {
            kind = 9;
        }
        // one object of every type (and some more), so that every argument can be filled
        let mut objs: Vec<(String, Ty)> = vec![];
        if self.typed {
            for i in 0..self.types.len() {
                objs.push((format!("o{i}_{ptag}"), Some(i)));
            }
        } else {
            for i in 0..2 {
                objs.push((format!("o{i}_{ptag}"), None));
            }
        }
        if w.r.chance(20) {
            w.block();
            w.t(":requirements");
            w.t(":typing");
            w.close();
        }
        w.block();
        w.t(":objects");
        for (n, t) in &objs {
            w.t(n);
            if let Some(t) = self.tyname(*t) {
                w.t("-");
                w.t(&t);
            }
        }
        if kind == 1 {
            let l = w.t(&objs[0].0.clone());
            if let Some(t) = self.tyname(objs[0].1) {
                w.t("-");
                w.t(&t);
            }
            e = Expect::Reject(objs[0].0.clone(), Some(l));
        }
        if kind == 2 && self.typed {
            w.t(&format!("{ghost}o"));
            w.t("-");
            let l = w.t(&ghost);
            e = Expect::Reject(ghost.clone(), Some(l));
        }
        w.close();
        let pickobj = |r: &mut Rng, t: Ty| {
            let fit: Vec<usize> = (0..self.consts.len()).filter(|i| sub(self, self.consts[*i].1, t)).collect();
            if !fit.is_empty() && r.chance(15) {
                return self.consts[*r.pick(&fit)].0.clone();
            }
            let ok: Vec<usize> = (0..objs.len()).filter(|i| sub(self, objs[*i].1, t)).collect();
            objs[*r.pick(&ok)].0.clone()
        };
        let init_first = w.r.chance(20);
        for phase in 0..2 {
        if (phase == 0) != init_first {
        w.block();
        w.t(":htn");
        if !matches!(kind, 3 | 9 | 10 | 11 | 13) && w.r.chance(4) {
            // nothing to do
            if w.r.chance(50) {
                w.t(":parameters");
                w.open();
                w.close();
            }
            w.close();
            continue;
        }
        let mut vars: Vec<Ty> = vec![];
        if w.r.chance(30) {
            for _ in 0..r.below(3) {
                vars.push(if self.typed { Some(r.below(self.types.len())) } else { None });
            }
        }
        // a subtask with an argument of the wrong type, which may be a variable or a constant
        let mut wrong: Option<(Callee, usize, String, usize)> = None;
        if kind == 10 {
            let c = *r.pick(&badc);
            let sig = self.sig(c);
            let (at, j) = sig_ok(&sig).unwrap();
            let fit: Vec<usize> = (0..self.consts.len()).filter(|k| !sub(self, self.consts[*k].1, sig[at])).collect();
            wrong = Some(if r.chance(35) {
                vars.push(Some(j));
                (c, at, format!("?v{}", vars.len() - 1), j)
            } else if !fit.is_empty() && r.chance(50) {
                let k = *r.pick(&fit);
                (c, at, self.consts[k].0.clone(), self.consts[k].1.unwrap())
            } else {
                (c, at, objs[j].0.clone(), j)
            });
        }
        if !vars.is_empty() || w.r.chance(50) {
            w.t(":parameters");
            w.open();
            self.vars(&mut w, "?v", &vars);
            w.close();
        }
        let pickterm = |r: &mut Rng, t: Ty| {
            let ok: Vec<usize> = (0..vars.len()).filter(|i| sub(self, vars[*i], t)).collect();
            if !ok.is_empty() && r.chance(60) {
                format!("?v{}", r.pick(&ok))
            } else {
                pickobj(r, t)
            }
        };
        if kind == 9 {
            // a cyclic ordering
            w.t(":subtasks");
            w.open();
            w.t("and");
            for k in 0..2 {
                let c = callees[r.below(callees.len())];
                w.open();
                w.t(&format!("k{k}z"));
                w.open();
                w.t(self.callee(c));
                for t in self.sig(c) {
                    let o = pickobj(r, t);
                    w.t(&o);
                }
                w.close();
                w.close();
            }
            w.close();
            let l = w.t(":ordering");
            e = Expect::Reject("ordering is cyclic".into(), Some(l));
            w.open();
            w.t("and");
            for (a, b) in [(0, 1), (1, 0)] {
                w.open();
                w.t("<");
                w.t(&format!("k{a}z"));
                w.t(&format!("k{b}z"));
                w.close();
            }
            w.close();
        } else if !matches!(kind, 3 | 10 | 11 | 13) && w.r.chance(50) {
            let ordered = r.chance(50);
            let mut subs: Vec<(&str, Vec<String>)> = vec![];
            for _ in 0..r.below(4) {
                let c = callees[r.below(callees.len())];
                subs.push((self.callee(c), self.sig(c).iter().map(|t| pickterm(r, *t)).collect()));
            }
            let mut order = vec![];
            for a in 0..subs.len() {
                for b in a + 1..subs.len() {
                    if !ordered && r.chance(50) {
                        order.push((a, b));
                    }
                }
            }
            let cons = if r.chance(20) { Some((0..r.below(3)).map(|_| (r.chance(60), self.any(r, &[]), self.any(r, &[]))).collect()) } else { None };
            let ids = !ordered || r.chance(40);
            self.network(&mut w, ordered, &subs, &order, ids, &cons);
        } else {
        w.t(":ordered-subtasks");
        w.open();
        w.t("and");
        for _ in 0..r.range(1, 3) {
            let c = if r.chance(60) { Callee::T(r.below(self.tasks.len())) } else { Callee::A(r.below(self.actions.len())) };
            w.open();
            w.t(self.callee(c));
            for t in self.sig(c) {
                let o = pickterm(r, t);
                w.t(&o);
            }
            w.close();
        }
        if kind == 3 {
            w.open();
            let l = w.t(&ghost);
            w.close();
            e = Expect::Reject(ghost.clone(), Some(l));
        }
        if matches!(kind, 10 | 11 | 13) {
            // a subtask with one argument of the wrong type, too many, or unknown
            let c = match kind {
                10 => wrong.as_ref().unwrap().0,
                13 => *r.pick(&widec),
                _ => *r.pick(&callees),
            };
            let sig = self.sig(c);
            let at = if kind == 10 { wrong.as_ref().unwrap().1 } else { r.below(sig.len().max(1)) };
            w.open();
            let l = w.t(self.callee(c));
            for (i, t) in sig.iter().enumerate() {
                if i == at && kind == 10 {
                    let (_, _, name, j) = wrong.clone().unwrap();
                    let a = w.t(&name);
                    e = Expect::Reject(format!("of type '{}', but found '{}'", self.tyname(*t).unwrap(), self.types[j].0), Some(a));
                } else if i == at && kind == 13 {
                    let a = w.t(&ghost);
                    e = Expect::Reject(format!("object {ghost} is not defined"), Some(a));
                } else {
                    let o = pickobj(r, *t);
                    w.t(&o);
                }
            }
            if kind == 11 {
                w.t(&objs[0].0.clone());
                e = Expect::Reject(format!("Task {} takes {} parameters, but {} are given", self.callee(c), sig.len(), sig.len() + 1), Some(l));
            }
            w.close();
        }
        w.close();
        }
        w.close();
        } else {
        w.block();
        w.t(":init");
        for _ in 0..r.range(0, 4) {
            let p = r.below(self.preds.len());
            w.open();
            w.t(&self.preds[p].0);
            for t in self.preds[p].1.clone() {
                let o = pickobj(r, t);
                w.t(&o);
            }
            w.close();
        }
        if kind == 4 {
            w.open();
            let l = w.t(&ghost);
            w.close();
            e = Expect::Reject(ghost.clone(), Some(l));
        }
        if kind == 5 {
            let p = self.preds.iter().find(|p| !p.1.is_empty());
            if let Some(p) = p {
                w.open();
                w.t(&p.0);
                let mut l = 0;
                for (i, t) in p.1.iter().enumerate() {
                    if i == 0 {
                        l = w.t(&ghost);
                    } else {
                        let o = pickobj(r, *t);
                        w.t(&o);
                    }
                }
                w.close();
                e = Expect::Reject(ghost.clone(), Some(l));
            }
        }
        if kind == 12 {
            let p = *r.pick(&badp);
            let sig = self.preds[p].1.clone();
            let (at, j) = sig_ok(&sig).unwrap();
            w.open();
            w.t(&self.preds[p].0);
            for (i, t) in sig.iter().enumerate() {
                if i == at {
                    let a = w.t(&objs[j].0.clone());
                    e = Expect::Reject(format!("of type '{}', but found '{}'", self.tyname(*t).unwrap(), self.types[j].0), Some(a));
                } else {
                    let o = pickobj(r, *t);
                    w.t(&o);
                }
            }
            w.close();
        }
        if kind == 16 {
            let (p, at, c) = *r.pick(&badk);
            let sig = self.preds[p].1.clone();
            w.open();
            w.t(&self.preds[p].0);
            for (i, t) in sig.iter().enumerate() {
                if i == at {
                    let a = w.t(&self.consts[c].0.clone());
                    e = Expect::Reject(format!("of type '{}', but found '{}'", self.tyname(*t).unwrap(), self.tyname(self.consts[c].1).unwrap()), Some(a));
                } else {
                    let o = pickobj(r, *t);
                    w.t(&o);
                }
            }
            w.close();
        }
        if kind == 14 {
            let p = r.below(self.preds.len());
            let n = self.preds[p].1.len();
            w.open();
            let l = w.t(&self.preds[p].0);
            for t in self.preds[p].1.clone() {
                let o = pickobj(r, t);
                w.t(&o);
            }
            w.t(&objs[0].0.clone());
            w.close();
            e = Expect::Reject(format!("predicate {} takes {} parameters, but {} are given", self.preds[p].0, n, n + 1), Some(l));
        }
        w.close();
        }
        }
        if kind == 15 {
            self.stumble(&mut w, true, &ghost, &mut e);
        }
        if kind == 7 {
            w.nl();
            w.raw("(");
            let l = w.t(":bogus");
            w.close();
            e = Expect::Reject("bogus".into(), Some(l));
        }
        if kind == 8 {
            let l = w.t("$oops$");
            e = Expect::Reject("$oops$".into(), Some(l));
        }
        // the parser takes the end of the goal for the end of the problem, hence it comes last
        if r.chance(50) || kind == 6 {
            w.block();
            w.t(":goal");
            w.open();
            w.t("and");
            if kind == 6 {
                w.open();
                let l = w.t(&ghost);
                w.close();
                e = Expect::Reject(ghost.clone(), Some(l));
            }
            for _ in 0..r.below(4) {
                let mut wraps = 0;
                let how = r.below(7);
                match how {
                    0 => {
                        w.open();
                        w.close();
                        continue;
                    }
                    1..=3 => {
                        w.open();
                        w.t(["not", "or", "oneof"][how - 1]);
                        wraps += 1;
                    }
                    _ => {}
                }
                let p = r.below(self.preds.len());
                let sig = self.preds[p].1.clone();
                let bound = how == 4;
                if bound {
                    w.open();
                    w.t(if r.chance(50) { "forall" } else { "exists" });
                    w.open();
                    self.vars(&mut w, "?q", &sig);
                    w.close();
                    wraps += 1;
                }
                w.open();
                w.t(&self.preds[p].0);
                for (i, t) in sig.iter().enumerate() {
                    let o = if bound { format!("?q{i}") } else { pickobj(r, *t) };
                    w.t(&o);
                }
                w.close();
                for _ in 0..wraps {
                    w.close();
                }
            }
            w.close();
            w.close();
        }
        w.nl();
        w.raw(")");
        w.nl();
        (w.s, e)
    }
}

pub fn junk(r: &mut Rng, tag: &str) -> String {
    match r.below(7) {
        0 => String::new(),
        1 => format!("hello world {tag}\n"),
        2 => format!("; only a comment {tag}"),
        3 => format!("(define (something x_{tag}))"),
        4 => format!("define (domain d_{tag})"),
        5 => "(".into(),
        _ => format!("\n\n\t (definition (domain d_{tag}) )"),
    }
}

/// may be partially ordered
pub fn wordy(t: &str) -> bool {
    [":subtasks", ":tasks", ":ordering", ":order "].iter().any(|k| t.contains(k))
}

const DICT: [&str; 64] = [
    "(", ")", "?", ":", ";", "-", "<", ">", "=", "<=", ">=", "and", "or", "not", "forall", "exists", "imply", "oneof",
    "probabilistic", "when", ":task", ":method", ":action", ":parameters", ":precondition", ":effect", ":subtasks", ":tasks",
    ":ordered-subtasks", ":ordering", ":constraints", ":types", ":predicates", ":functions", ":constants", ":init", ":goal", ":htn",
    ":objects", ":requirements", "define", "domain", "problem", "1.", "3.14", "0x", ":ordered-tasks", ":order", ":domain", ":problem",
    ":typing", ":equality", ":metric", "()", "(and)", "(not ())", "(= ?x ?x)", "(oneof", "(forall (?q) (and))", "(probabilistic 0.5",
    ":ordering ()", ":constraints ()", "99999999999999999999", "1.5.2",
];
const BYTES: [&[u8]; 12] = [
    b"\0", b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98\x80", b"\xc3\xa9", b"\r", b"\x0b", b"\"", b"'", b"\\", b"\xef\xbb\xbf",
];

fn tokens(b: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        let s = i;
        i += 1;
        if c != b'(' && c != b')' {
            while i < b.len() && !b[i].is_ascii_whitespace() && b[i] != b'(' && b[i] != b')' {
                i += 1;
            }
        }
        v.push((s, i));
    }
    v
}

/// several defects of one kind at once, so that the order in which they are found matters
pub fn multi(r: &mut Rng, text: &str) -> String {
    let mut t = text.to_string();
    for _ in 0..r.range(1, 2) {
        t = multi_once(r, &t);
    }
    t
}
fn multi_once(r: &mut Rng, text: &str) -> String {
    let b = text.as_bytes();
    let toks = tokens(b);
    let name = |k: usize| &text[toks[k].0..toks[k].1];
    let cat = |w: &str| -> Option<&'static str> {
        for c in ["ty", "?x", "?v", "id"] {
            if w.starts_with(c) {
                return Some(c);
            }
        }
        if !w.contains('_') {
            return None;
        }
        ["p", "t", "a", "m", "o", "c"].into_iter().find(|c| w.starts_with(c) && w[1..].starts_with(|d: char| d.is_ascii_digit()))
    };
    let mut by: std::collections::BTreeMap<&str, Vec<usize>> = Default::default();
    for k in 0..toks.len() {
        if let Some(c) = cat(name(k)) {
            by.entry(c).or_default().push(k);
        }
    }
    // top-level blocks: ( ... ) at depth 1
    let mut blocks: Vec<(usize, usize)> = vec![];
    let mut depth = 0;
    let mut start = 0;
    for k in 0..toks.len() {
        match name(k) {
            "(" => {
                depth += 1;
                if depth == 2 {
                    start = toks[k].0;
                }
            }
            ")" => {
                depth -= 1;
                if depth == 1 {
                    blocks.push((start, toks[k].1));
                }
            }
            _ => {}
        }
    }
    let mut edits: Vec<(usize, usize, String)> = vec![];
    let cats: Vec<&str> = by.keys().copied().collect();
    match r.below(6) {
        0..=2 if !cats.is_empty() => {
            // distinct unknown names, or known names in wrong places
            let v = by[*r.pick(&cats)].clone();
            let swap = r.chance(35);
            for i in 0..r.range(2, 6) {
                let k = *r.pick(&v);
                let new = if swap { name(*r.pick(&v)).to_string() } else { format!("{}ghost{}", if name(k).starts_with('?') { "?" } else { "" }, (i * 7919 + r.below(50)) % 1000) };
                edits.push((toks[k].0, toks[k].1, new));
            }
        }
        3 if blocks.len() > 2 => {
            // repeated definitions
            for _ in 0..r.range(1, 3) {
                let (s, e) = blocks[r.range(1, blocks.len() - 1)];
                edits.push((e, e, format!("\n{}", &text[s..e])));
            }
        }
        4 if blocks.len() > 3 => {
            // a declaration that everything else refers to is missing
            for _ in 0..r.range(1, 2) {
                let (s, e) = blocks[r.range(1, blocks.len() - 1)];
                edits.push((s, e, String::new()));
            }
        }
        _ if !cats.is_empty() => {
            // names listed twice
            let v = by[*r.pick(&cats)].clone();
            for _ in 0..r.range(2, 4) {
                let k = *r.pick(&v);
                edits.push((toks[k].1, toks[k].1, format!(" {}", name(k))));
            }
        }
        _ => {}
    }
    edits.sort_by_key(|e| (e.0, e.1));
    let mut out = String::new();
    let mut at = 0;
    for (s, e, n) in edits {
        if s < at {
            continue;
        }
        out.push_str(&text[at..s]);
        out.push_str(&n);
        at = e;
    }
    out.push_str(&text[at..]);
    out
}

/// a word of unusual length or spelling: buffer sizes, multi-byte characters across them, odd numbers
pub fn long_word(r: &mut Rng) -> String {
    let mut t = String::from(*r.pick(&["", "", "", ":", "?", "-", "1", "<", "1.", "$", "\u{e9}"]));
    let n = if r.chance(50) { r.range(1, 80) } else { *r.pick(&[100, 127, 128, 129, 200, 255, 256, 257, 400, 511, 512, 600, 1023, 1025, 4097]) };
    match r.below(5) {
        0 => t.push_str(&"7".repeat(n)),
        1 => t.push_str(*r.pick(&["1.2.3", "-5", "--", "1e9", "0.0.", "9-9", "a.b", "?:", "??x", "::x", "<x", "=>", "a;b"])),
        2 => {
            // one wide character somewhere in a narrow word
            let k = r.below(n + 1);
            let c = *r.pick(&['\u{e9}', '\u{20ac}', '\u{1f600}', '\u{301}', '\u{feff}', '\u{a0}', '\u{2028}']);
            for i in 0..n {
                if i == k {
                    t.push(c);
                }
                t.push('w');
            }
        }
        3 => {
            let c = *r.pick(&['\u{e9}', '\u{20ac}', '\u{1f600}']);
            for _ in 0..n.div_ceil(2) {
                t.push(c);
            }
        }
        _ => {
            for i in 0..n {
                t.push((b'a' + (i % 26) as u8) as char);
            }
        }
    }
    t
}

/// what an interrupted or concurrent writer, or bit rot, leaves behind
pub fn damage(r: &mut Rng, base: &[u8], other: &[u8]) -> (Vec<u8>, &'static str) {
    let b = base.to_vec();
    let n = b.len();
    if n == 0 {
        return (b, "empty");
    }
    match r.below(18) {
        0 | 1 | 2 => {
            // torn: cut at any byte, biased towards the inside of tokens and the last few of them
            let toks = tokens(&b);
            let how = r.below(4);
            let k = if how < 2 || toks.is_empty() {
                r.below(n + 1)
            } else if how == 2 {
                let j = toks.len() - 1 - r.below(toks.len().min(8));
                let (s, e) = toks[j];
                if r.chance(50) {
                    s
                } else {
                    e
                }
            } else {
                let (s, e) = *r.pick(&toks);
                s + r.below(e - s + 1)
            };
            (b[..k].to_vec(), "torn")
        }
        3 => {
            let k = r.below(n);
            let mut x = b.clone();
            let z = r.range(1, 600);
            x.truncate(k);
            x.resize(k + z, 0);
            (x, "zeroed tail")
        }
        4 => {
            // shorter new content over longer old content
            let k = r.below(n + 1);
            let mut x = b[..k].to_vec();
            if other.len() > k {
                x.extend_from_slice(&other[k..]);
            } else if !other.is_empty() {
                x.extend_from_slice(&other[r.below(other.len())..]);
            }
            (x, "stale tail")
        }
        5 => {
            let mut x = b.clone();
            for _ in 0..r.range(1, 4) {
                let k = r.below(n);
                x[k] ^= 1 << r.below(8);
            }
            (x, "flipped bits")
        }
        6 => {
            let mut x = b.clone();
            for _ in 0..r.range(1, 3) {
                let k = r.below(x.len() + 1);
                let ins = *r.pick(&BYTES);
                x.splice(k..k, ins.iter().copied());
            }
            (x, "inserted bytes")
        }
        7 | 8 => {
            let toks = tokens(&b);
            let mut x = b.clone();
            if !toks.is_empty() {
                let (s, e) = *r.pick(&toks);
                let t = *r.pick(&DICT);
                x.splice(s..e, t.bytes());
            }
            (x, "replaced token")
        }
        9 => {
            let toks = tokens(&b);
            let mut x = b.clone();
            if !toks.is_empty() {
                let (s, e) = *r.pick(&toks);
                x.splice(s..e, std::iter::empty());
            }
            (x, "lost token")
        }
        10 => {
            let toks = tokens(&b);
            let mut x = b.clone();
            if !toks.is_empty() {
                let (s, _) = *r.pick(&toks);
                let t = format!(" {} ", r.pick(&DICT));
                x.splice(s..s, t.bytes());
            }
            (x, "inserted token")
        }
        11 => {
            // a lost or repeated range of blocks
            let bs = [16, 64, 128][r.below(3)];
            let nb = n.div_ceil(bs);
            let k = r.below(nb);
            let mut x = b.clone();
            let (s, e) = (k * bs, ((k + 1) * bs).min(n));
            if r.chance(50) {
                x.splice(s..e, std::iter::empty());
                (x, "lost block")
            } else {
                let blk = b[s..e].to_vec();
                x.splice(s..s, blk);
                (x, "repeated block")
            }
        }
        12 => {
            // torn, then a dangling token right at the end
            let toks = tokens(&b);
            let k = if toks.is_empty() { 0 } else { r.pick(&toks).1 };
            let mut x = b[..k].to_vec();
            x.extend_from_slice(b" ");
            x.extend_from_slice(r.pick(&DICT).as_bytes());
            (x, "dangling token")
        }
        13 => {
            let toks = tokens(&b);
            let mut x = b.clone();
            if !toks.is_empty() {
                let (s, _) = *r.pick(&toks);
                let depth = [50, 99, 101, 300, 3000, 60000][r.below(6)];
                let t = *r.pick(&["(not ", "(and ", "(or ", "(", "(forall (?x) ", "(exists (?x) "]);
                x.splice(s..s, t.repeat(depth).bytes());
            }
            (x, "deep nesting")
        }
        14 => {
            let mut x = b.clone();
            let k = r.below(n);
            let c = *r.pick(&[b'\n', b' ', b'(', b')', b';', b'a', b'?', b':', b'-', b'<', b'.']);
            let z = r.range(1, 3000);
            x.splice(k..k, std::iter::repeat(c).take(z));
            (x, "long run")
        }
        16 | 17 => {
            // words of unusual length and spelling
            let toks = tokens(&b);
            let mut x = b.clone();
            for _ in 0..r.range(1, 3) {
                if !toks.is_empty() {
                    let (s, _) = *r.pick(&toks);
                    let s = s.min(x.len());
                    let t = format!(" {} ", long_word(r));
                    x.splice(s..s, t.bytes());
                }
            }
            (x, "long word")
        }
        _ => {
            let k = r.below(n);
            let l = (r.range(1, 6)).min(n - k);
            let mut x = b.clone();
            x.splice(k..k + l, std::iter::empty());
            (x, "lost bytes")
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    Domain,
    Problem,
    Other,
    /// the header is so unusual that either answer is acceptable
    Unsure,
}
/// independent reading of the header: ( define ( domain|problem
pub fn classify(b: &[u8]) -> Class {
    let mut i = 0;
    let mut toks: Vec<Vec<u8>> = vec![];
    while toks.len() < 4 {
        while i < b.len() && matches!(b[i], b' ' | b'\t' | b'\n' | b'\r' | b';') {
            if b[i] == b';' {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            } else {
                i += 1;
            }
        }
        if i >= b.len() {
            return Class::Other;
        }
        let s = i;
        i += 1;
        if !matches!(b[s], b'(' | b')') {
            while i < b.len() && !matches!(b[i], b'(' | b')' | b' ' | b'\t' | b'\n' | b'\r') {
                i += 1;
            }
        }
        toks.push(b[s..i].to_vec());
    }
    let plain = |t: &[u8]| t.iter().all(|c| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'-' | b'(' | b')'));
    let expect: [&[u8]; 3] = [b"(", b"define", b"("];
    for (t, x) in toks.iter().zip(expect.iter()) {
        if t != x {
            return if plain(t) && !t.starts_with(b"-") { Class::Other } else { Class::Unsure };
        }
    }
    match toks[3].as_slice() {
        b"domain" => Class::Domain,
        b"problem" => Class::Problem,
        t if plain(t) => Class::Other,
        _ => Class::Unsure,
    }
}
