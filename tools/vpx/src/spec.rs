use std::collections::BTreeMap;
#[derive(Clone, Default, Debug)]
pub struct FnSpec {
    pub props: Vec<String>,
    pub contract: String,
    pub external: bool,
    pub stub: bool,
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub bounds: Vec<String>,
    pub rename: Option<String>,
    pub loops: BTreeMap<usize, String>,
    pub inserts: Vec<(String, String)>, // (anchor, text)
    pub ufcs: Vec<(String, String, String)>, // method, trait, mode
    pub declared: bool,
    pub contract_set: bool,
    pub noinline: bool,
}
impl FnSpec { pub fn has_contract(&self) -> bool { self.contract_set } }
#[derive(Default)]
pub struct Spec {
    pub modules: Vec<String>,
    pub head: String,
    pub prelude: String,
    pub postlude: String,
    pub drop: Vec<String>,
    pub fns: BTreeMap<String, FnSpec>,
    pub impl_extra: BTreeMap<String, String>,
    pub mono: Vec<(String, String, BTreeMap<String, String>)>, // impl self type, tag, subst
    pub subst_path: BTreeMap<String, String>,
    pub subst_method: BTreeMap<String, String>,
    pub subst_fn: BTreeMap<String, String>,
    pub result_methods: Vec<String>,
    pub defs: BTreeMap<String, String>,
    pub alias: Vec<(Vec<String>, String)>, // path prefix, name in the verified file
    pub outline: Vec<(String, String)>, // impl method, trait method
}
impl Spec {
    pub fn drops(&self, name: &str) -> bool {
        self.drop.iter().any(|d| {
            if let Some(p) = d.strip_suffix('*') { name.starts_with(p) } else { d == name }
        })
    }
    pub fn subst_mono(&self, s: &str, tag: &str) -> String {
        if tag.is_empty() { return s.to_string() }
        let mut s = s.to_string();
        for (_, t, m) in &self.mono {
            if t == tag { for (k, v) in m { s = s.replace(&format!("${k}"), v); } break }
        }
        s
    }
    pub fn parse(path: &str) -> Spec {
        let mut sp = Spec::default();
        sp.result_methods = vec!["deserialize".into(), "serialize".into()];
        sp.load(path);
        // expand $DEF macros: `%NAME%` -> text
        let defs = sp.defs.clone();
        let ex = |s: &mut String| for _ in 0..3 { for (k, v) in &defs { *s = s.replace(&format!("%{k}%"), v.trim_end()); } };
        ex(&mut sp.prelude); ex(&mut sp.postlude);
        for v in sp.impl_extra.values_mut() { ex(v) }
        for f in sp.fns.values_mut() {
            ex(&mut f.contract);
            for l in f.loops.values_mut() { ex(l) }
            for i in f.inserts.iter_mut() { ex(&mut i.1) }
        }
        sp
    }
    fn load(&mut self, path: &str) {
        let sp = self;
        let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
        let txt = std::fs::read_to_string(path).expect("spec");
        enum Cur { None, Head, Prelude, Postlude, Fn(Vec<String>), Loop(Vec<String>, usize), Ins(Vec<String>, usize), Impl(Vec<String>), Def(String) }
        let mut cur = Cur::None;
        for line in txt.lines() {
            if let Some(d) = line.strip_prefix("@@") {
                let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
                let rest = rest.trim();
                // helper: split "PATH [props]" where several PATHs are separated by " | "
                let split = |r: &str| -> (Vec<String>, Vec<String>) {
                    let (p, props) = match r.rfind('[') {
                        Some(i) if r.ends_with(']') && r[..i].ends_with(' ') => (&r[..i], &r[i + 1..r.len() - 1]),
                        _ => (r, ""),
                    };
                    (p.split(" | ").map(|s| s.trim().to_string()).collect(),
                     props.split(|c: char| c == ',' || c == ' ').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect())
                };
                match cmd {
                    "include" => { sp.load(dir.join(rest).to_str().unwrap()); cur = Cur::None }
                    "module" => { sp.modules.push(rest.into()); cur = Cur::None }
                    "drop" => { sp.drop.push(rest.into()); cur = Cur::None }
                    "head" => cur = Cur::Head,
                    "prelude" => cur = Cur::Prelude,
                    "postlude" => cur = Cur::Postlude,
                    "def" => { sp.defs.insert(rest.into(), String::new()); cur = Cur::Def(rest.into()) }
                    "fn" | "external" | "stub" | "contract" => {
                        let (ps, props) = split(rest);
                        for p in &ps {
                            let f = sp.fns.entry(p.clone()).or_default();
                            f.declared = true;
                            if cmd != "fn" || true { f.contract_set = true }
                            for pr in &props { if !f.props.contains(pr) { f.props.push(pr.clone()) } }
                            if cmd == "external" || cmd == "stub" { f.external = true; f.stub = cmd == "stub" }
                        }
                        cur = Cur::Fn(ps);
                    }
                    "ret" => { let (p, n) = rest.rsplit_once(' ').unwrap(); sp.fns.entry(p.into()).or_default().ret = Some(n.into()); cur = Cur::None }
                    "attr" => { let (p, n) = rest.split_once(" :: ").unwrap(); for p in p.split(" | ") { sp.fns.entry(p.trim().into()).or_default().attrs.push(n.into()); } cur = Cur::None }
                    "loop" => {
                        let (p, n) = rest.rsplit_once(' ').unwrap();
                        let ps: Vec<String> = p.split(" | ").map(|s| s.trim().to_string()).collect();
                        cur = Cur::Loop(ps, n.parse().unwrap());
                    }
                    // @@at ANCHOR :: PATH
                    "at" => {
                        let (a, p) = rest.split_once(" :: ").unwrap();
                        let ps: Vec<String> = p.split(" | ").map(|s| s.trim().to_string()).collect();
                        let mut n = 0;
                        for p in &ps {
                            let f = sp.fns.entry(p.clone()).or_default();
                            f.inserts.push((a.into(), String::new())); n = f.inserts.len() - 1;
                        }
                        let _ = n;
                        cur = Cur::Ins(ps, 0);
                    }
                    "impl" => { let ps = rest.split(" | ").map(|s| s.trim().to_string()).collect(); cur = Cur::Impl(ps) }
                    "mono" => {
                        // @@mono SelfType tag K=V;K=V
                        let mut it = rest.splitn(3, ' ');
                        let t = it.next().unwrap().to_string(); let tag = it.next().unwrap().to_string();
                        let m = it.next().unwrap().split(';').map(|kv| { let (k, v) = kv.split_once('=').unwrap(); (k.trim().to_string(), v.trim().to_string()) }).collect();
                        sp.mono.push((t, tag, m)); cur = Cur::None
                    }
                    "ufcs" => {
                        // @@ufcs PATH :: method Trait mode
                        let (p, r) = rest.split_once(" :: ").unwrap();
                        let v: Vec<&str> = r.split_whitespace().collect();
                        sp.fns.entry(p.trim().into()).or_default().ufcs.push((v[0].into(), v[1].into(), v[2].into())); cur = Cur::None
                    }
                    "alias" => { let (k, v) = rest.split_once("=>").unwrap(); sp.alias.push((k.trim().split("::").map(|x| x.to_string()).collect(), v.trim().into())); cur = Cur::None }
                    "subst-path" => { let (k, v) = rest.split_once("=>").unwrap(); sp.subst_path.insert(k.trim().into(), v.trim().into()); cur = Cur::None }
                    "subst-method" => { let (k, v) = rest.split_once("=>").unwrap(); sp.subst_method.insert(k.trim().into(), v.trim().into()); cur = Cur::None }
                    "subst-fn" => { let (k, v) = rest.split_once("=>").unwrap(); sp.subst_fn.insert(k.trim().into(), v.trim().into()); cur = Cur::None }
                    "rename" => { let (p, n) = rest.rsplit_once(' ').unwrap(); sp.fns.entry(p.trim().into()).or_default().rename = Some(n.into()); cur = Cur::None }
                    "bound" => { let (p, n) = rest.split_once(" :: ").unwrap(); for p in p.split(" | ") { sp.fns.entry(p.trim().into()).or_default().bounds.push(n.into()); } cur = Cur::None }
                    "outline" => { let (p, n) = rest.split_once(" :: ").unwrap(); sp.outline.push((p.trim().into(), n.trim().into())); cur = Cur::None }
                    "result-method" => { sp.result_methods.push(rest.into()); cur = Cur::None }
                    "#" | "" => {}
                    c => panic!("unknown directive {c} in {path}"),
                }
                continue
            }
            match &cur {
                Cur::None => {}
                Cur::Head => { sp.head.push_str(line); sp.head.push('\n') }
                Cur::Prelude => { sp.prelude.push_str(line); sp.prelude.push('\n') }
                Cur::Postlude => { sp.postlude.push_str(line); sp.postlude.push('\n') }
                Cur::Def(n) => { let d = sp.defs.get_mut(n).unwrap(); d.push_str(line); d.push('\n') }
                Cur::Fn(ps) => for p in ps { let f = sp.fns.get_mut(p).unwrap(); f.contract.push_str(line); f.contract.push('\n') },
                Cur::Loop(ps, n) => for p in ps { let l = sp.fns.entry(p.clone()).or_default().loops.entry(*n).or_default(); l.push_str(line); l.push('\n') },
                Cur::Ins(ps, _) => for p in ps { let f = sp.fns.get_mut(p).unwrap(); let l = f.inserts.last_mut().unwrap(); l.1.push_str(line); l.1.push('\n') },
                Cur::Impl(ps) => for p in ps { let l = sp.impl_extra.entry(p.clone()).or_default(); l.push_str(line); l.push('\n') },
            }
        }
    }
}
