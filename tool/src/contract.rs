use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Clause { pub tags: Vec<String>, pub text: String }

#[derive(Clone, Debug, Default)]
pub struct LoopC {
    pub brk: bool, pub inv: Vec<Clause>, pub tries: Vec<Clause>, pub dec: Option<String>, pub hint: Vec<Clause>, pub pre: Vec<Clause>, pub post: Vec<Clause>, pub out: Option<String>, pub ins: Option<String> }

#[derive(Clone, Debug, Default)]
pub struct FnC {
    pub params: Vec<String>,
    pub req: Vec<Clause>,
    pub ens: Vec<Clause>,
    pub pre: Vec<Clause>,
    pub hint: Vec<Clause>,
    pub loops: BTreeMap<usize, LoopC>,
    pub attrs: Vec<String>,
    pub except: Vec<String>,
    pub only: Vec<String>,
    pub opt: bool,
}

#[derive(Default, Debug)]
pub struct Contract {
    pub prelude: Vec<Clause>,
    pub fns: BTreeMap<String, FnC>,
    pub entries: BTreeMap<String, Vec<FnC>>,
    pub steps: Vec<FnC>,
    pub inits: Vec<FnC>,
    pub structs: BTreeMap<String, Vec<String>>,
    pub nopanic: Vec<(String, FnC)>,
    pub api: BTreeMap<String, Vec<(String, String)>>,
    pub loops_only: BTreeMap<String, FnC>,
}

fn sig(s: &str) -> (String, Vec<String>) {
    match s.find('(') {
        Some(i) => {
            let name = s[..i].trim().to_string();
            let ps = s[i + 1..].trim_end().trim_end_matches(')');
            (name, ps.split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect())
        }
        None => (s.trim().to_string(), vec![]),
    }
}

impl Contract {
    pub fn parse(src: &str) -> Result<Contract, String> {
        let mut c = Contract::default();
        // split into directives
        let mut dirs: Vec<(String, String)> = vec![];
        for line in src.lines() {
            if line.starts_with("//!") { continue; }
            if let Some(rest) = line.strip_prefix('@') {
                let (d, r) = match rest.find(char::is_whitespace) { Some(i) => (&rest[..i], &rest[i..]), None => (rest, "") };
                dirs.push((d.to_string(), r.to_string()));
            } else if let Some(l) = dirs.last_mut() {
                l.1.push('\n');
                l.1.push_str(line);
            }
        }
        enum Cur { None, Fn(String), Entry(String, usize), Step(usize), Init(usize), NoPanic(usize), Loops(String) }
        let mut cur = Cur::None;
        let mut lp: Option<usize> = None;
        for (d, text) in dirs {
            let (name, tags) = match d.find('[') {
                Some(i) => (d[..i].to_string(), d[i + 1..].trim_end_matches(']').split(',').map(|x| x.trim().to_string()).collect()),
                None => (d.clone(), vec![]),
            };
            let text = text.trim().to_string();
            match name.as_str() {
                "prelude" => { c.prelude.push(Clause { tags, text }); cur = Cur::None; continue; }
                "struct" => {
                    let mut it = text.split_whitespace().map(|x| x.to_string());
                    let n = it.next().ok_or("struct name")?;
                    c.structs.insert(n, it.collect());
                    cur = Cur::None;
                    continue;
                }
                // @api method(name: type, ...): the JSON arguments with which the repository's other contracts call this method
                "api" => {
                    let (n, rest) = text.split_once('(').ok_or("api: method(name: type, ...)")?;
                    let v = rest.trim_end_matches(')').split(',').filter(|x| !x.trim().is_empty()).map(|x| x.split_once(':').map(|(a, b)| (a.trim().to_string(), b.trim().to_string())).ok_or("api: name: type")).collect::<Result<Vec<_>, _>>()?;
                    c.api.insert(n.trim().to_string(), v);
                    cur = Cur::None;
                    continue;
                }
                "end" => { cur = Cur::None; continue; }
                "fn" => { let (n, p) = sig(&text); c.fns.insert(n.clone(), FnC { params: p, ..Default::default() }); cur = Cur::Fn(n); lp = None; continue; }
                "loops" => { let (n, p) = sig(&text); c.loops_only.insert(n.clone(), FnC { params: p, ..Default::default() }); cur = Cur::Loops(n); lp = None; continue; }
                "entry" => {
                    let (n, p) = sig(&text);
                    let v = c.entries.entry(n.clone()).or_default();
                    v.push(FnC { params: p, ..Default::default() });
                    cur = Cur::Entry(n, v.len() - 1); lp = None; continue;
                }
                "step" => {
                    let mut f = FnC::default();
                    let ws: Vec<String> = text.split_whitespace().map(|x| x.to_string()).collect();
                    if ws.first().map(|s| s == "except").unwrap_or(false) { f.except = ws[1..].to_vec(); }
                    if ws.first().map(|s| s == "only").unwrap_or(false) { f.only = ws[1..].to_vec(); }
                    c.steps.push(f); cur = Cur::Step(c.steps.len() - 1); lp = None; continue;
                }
                "init" => { c.inits.push(FnC::default()); cur = Cur::Init(c.inits.len() - 1); lp = None; continue; }
                "nopanic" => { let (n, p) = sig(&text); c.nopanic.push((n, FnC { params: p, ..Default::default() })); cur = Cur::NoPanic(c.nopanic.len() - 1); lp = None; continue; }
                _ => {}
            }
            let f: &mut FnC = match &cur {
                Cur::Fn(n) => c.fns.get_mut(n).unwrap(),
                Cur::Entry(n, i) => &mut c.entries.get_mut(n).unwrap()[*i],
                Cur::Step(i) => &mut c.steps[*i],
                Cur::Init(i) => &mut c.inits[*i],
                Cur::NoPanic(i) => &mut c.nopanic[*i].1,
                Cur::Loops(n) => c.loops_only.get_mut(n).unwrap(),
                Cur::None => return Err(format!("directive @{d} outside a section")),
            };
            let cl = Clause { tags, text: text.clone() };
            match name.as_str() {
                "req" => f.req.push(cl),
                "ens" => f.ens.push(cl),
                "loop" => { lp = Some(text.parse::<usize>().map_err(|e| e.to_string())?); f.loops.entry(lp.unwrap()).or_default(); }
                "inv" => f.loops.entry(lp.ok_or("@inv outside loop")?).or_default().inv.push(cl),
                "try" => f.loops.entry(lp.ok_or("@try outside loop")?).or_default().tries.push(cl),
                "dec" => f.loops.entry(lp.ok_or("@dec outside loop")?).or_default().dec = Some(text),
                "hint" => match lp { Some(l) => f.loops.entry(l).or_default().hint.push(cl), None => f.hint.push(cl) },
                "pre" => match lp { Some(l) => f.loops.entry(l).or_default().pre.push(cl), None => f.pre.push(cl) },
                "post" => f.loops.entry(lp.ok_or("@post outside loop")?).or_default().post.push(cl),
                "out" => f.loops.entry(lp.ok_or("@out outside loop")?).or_default().out = Some(text),
                "ins" => f.loops.entry(lp.ok_or("@ins outside loop")?).or_default().ins = Some(text),
                "brk" => f.loops.entry(lp.ok_or("@brk outside loop")?).or_default().brk = true,
                "endloop" => lp = None,
                "attr" => f.attrs.push(text),
                "optional" => f.opt = true,
                _ => return Err(format!("unknown directive @{d}")),
            }
        }
        Ok(c)
    }
}

/// Replaces whole-word identifiers.
pub fn subst(text: &str, map: &[(String, String)]) -> String {
    let mut out = String::new();
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_alphabetic() || c == '_' {
            let st = i;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') { i += 1; }
            let w: String = cs[st..i].iter().collect();
            let after_dot = st > 0 && cs[st - 1] == '.' && !(st > 1 && cs[st - 2] == '.');
            match map.iter().find(|(k, _)| *k == w) {
                Some((_, v)) if !after_dot => out.push_str(v),
                _ => out.push_str(&w),
            }
        } else if c.is_ascii_digit() {
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') { out.push(cs[i]); i += 1; }
        } else if c == '"' {
            out.push(c); i += 1;
            while i < cs.len() && cs[i] != '"' { out.push(cs[i]); i += 1; }
            if i < cs.len() { out.push('"'); i += 1; }
        } else { out.push(c); i += 1; }
    }
    out
}
