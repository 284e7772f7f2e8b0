//! Conformance harness: reads one JSON case per line on stdin, runs it against the real carcara
//! library, writes one JSON result per line on stdout. A panic in the code under test is data.
use carcara::{ast::*, checker, elaborator, parser, slice, Error};
use indexmap::IndexMap;
use serde_json::{json, Value as J};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

static BEAT: AtomicU64 = AtomicU64::new(0);

fn s<'a>(v: &'a J, k: &str) -> &'a str {
    v.get(k).and_then(J::as_str).unwrap_or("")
}
fn b(v: &J, k: &str) -> bool {
    v.get(k).and_then(J::as_bool).unwrap_or(false)
}
fn strs(v: &J, k: &str) -> Vec<String> {
    v.get(k)
        .and_then(J::as_array)
        .map(|a| a.iter().map(|x| x.as_str().unwrap().to_owned()).collect())
        .unwrap_or_default()
}

fn pconf(v: &J) -> parser::Config {
    parser::Config {
        apply_function_defs: b(v, "apply_defs"),
        expand_lets: b(v, "expand_lets"),
        allow_int_real_subtyping: b(v, "int_real"),
        strict: b(v, "strict"),
        parse_hole_args: !b(v, "no_hole_args"),
    }
}
fn cconf(v: &J) -> checker::Config {
    checker::Config {
        elaborated: b(v, "elaborated"),
        ignore_unknown_rules: b(v, "ignore_unknown"),
        allowed_rules: strs(v, "allowed").into_iter().collect(),
    }
}

fn err_json(e: &Error) -> J {
    match e {
        Error::Checker { inner, rule, step } => {
            json!({"v":"invalid","rule":rule.to_string(),"step":step.to_string(),"msg":format!("{inner}")})
        }
        Error::DoesNotReachEmptyClause => json!({"v":"invalid","step":"","msg":"noempty"}),
        Error::Parser(e, p) => json!({"v":"perr","msg":format!("{e}"),"line":p.0}),
        Error::Io(e) => json!({"v":"ioerr","msg":format!("{e}")}),
    }
}
fn verdict(r: &Result<bool, Error>) -> J {
    match r {
        Ok(false) => json!({"v":"valid"}),
        Ok(true) => json!({"v":"holey"}),
        Err(e) => err_json(e),
    }
}

fn parse(v: &J) -> Result<(Problem, Proof, rare_rules::Rules, PrimitivePool), Error> {
    let rare = v.get("rare").and_then(J::as_str);
    parser::parse_instance(
        s(v, "problem").as_bytes(),
        s(v, "proof").as_bytes(),
        rare.map(str::as_bytes),
        pconf(v),
    )
}

fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(m) = e.downcast_ref::<&str>() {
        (*m).to_owned()
    } else if let Some(m) = e.downcast_ref::<String>() {
        m.clone()
    } else {
        "?".into()
    }
}

fn guard<F: FnOnce() -> J>(f: F) -> J {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(j) => j,
        Err(e) => json!({"v":"panic","msg":panic_msg(e)}),
    }
}

fn check_seq(v: &J, stats: bool) -> J {
    guard(|| {
        let rare = v.get("rare").and_then(J::as_str);
        if stats {
            match parse(v) {
                Err(e) => err_json(&e),
                Ok((problem, proof, rules, mut pool)) => {
                    let mut c = checker::ProofChecker::new(&mut pool, &rules, cconf(v));
                    let mut st = checker::CheckerStatistics {
                        file_name: "this",
                        polyeq_time: Default::default(),
                        assume_time: Default::default(),
                        assume_core_time: Default::default(),
                        results: carcara::benchmarking::OnlineBenchmarkResults::new(),
                    };
                    verdict(&c.check_with_stats(&problem, &proof, &mut st))
                }
            }
        } else {
            verdict(&carcara::check(
                s(v, "problem").as_bytes(),
                s(v, "proof").as_bytes(),
                rare.map(str::as_bytes),
                pconf(v),
                cconf(v),
                false,
            ))
        }
    })
}

fn check_par(v: &J, n: usize) -> J {
    guard(|| {
        let rare = v.get("rare").and_then(J::as_str);
        verdict(&carcara::check_parallel(
            s(v, "problem").as_bytes(),
            s(v, "proof").as_bytes(),
            rare.map(str::as_bytes),
            pconf(v),
            cconf(v),
            false,
            n,
            0,
        ))
    })
}

/// In parallel, with statistics.
fn check_par_stats(v: &J, n: usize) -> J {
    guard(|| match parse(v) {
        Err(e) => err_json(&e),
        Ok((problem, proof, rules, pool)) => {
            let (sch, usage) = checker::Scheduler::new(n, &proof);
            let mut c = checker::ParallelProofChecker::new(Arc::new(pool), cconf(v), &problem.prelude, &usage, 0, rules);
            let mut st = checker::CheckerStatistics {
                file_name: "this",
                polyeq_time: Default::default(),
                assume_time: Default::default(),
                assume_core_time: Default::default(),
                results: carcara::benchmarking::OnlineBenchmarkResults::new(),
            };
            verdict(&c.check_with_stats(&problem, &proof, &sch, &mut st))
        }
    })
}

/// A whole proof: sequential verdict, with statistics, and in parallel for each thread count.
fn run_proof(v: &J) -> J {
    let mut out = check_seq(v, false);
    if b(v, "stats") {
        out["stats"] = check_seq(v, true);
    }
    if let Some(ts) = v.get("threads").and_then(J::as_array) {
        let reps = v.get("reps").and_then(J::as_u64).unwrap_or(1);
        let mut m = serde_json::Map::new();
        for t in ts {
            let n = t.as_u64().unwrap() as usize;
            let mut rs: Vec<J> = Vec::new();
            for _ in 0..reps {
                let r = check_par(v, n);
                if !rs.contains(&r) {
                    rs.push(r);
                }
                if b(v, "stats") {
                    let r = check_par_stats(v, n);
                    if !rs.contains(&r) {
                        rs.push(r);
                    }
                }
            }
            m.insert(n.to_string(), J::Array(rs));
        }
        out["par"] = J::Object(m);
    }
    out
}

/// One step tried under several rule names. The proof text has `hole` in place of the rule; the
/// step whose id is "t" is the one replaced.
fn run_step(v: &J) -> J {
    let mut problem = s(v, "decl").to_owned();
    let mut proof = String::new();
    let mut ids = Vec::new();
    for (i, p) in v.get("prem").and_then(J::as_array).unwrap_or(&vec![]).iter().enumerate() {
        proof.push_str(&format!("(step h{i} (cl {}) :rule hole)\n", p.as_str().unwrap()));
        ids.push(format!("h{i}"));
    }
    for a in strs(v, "asserts") {
        problem.push_str(&format!("(assert {a})\n"));
    }
    proof.push_str(&format!("(step t (cl {}) :rule hole", s(v, "cl")));
    if !ids.is_empty() {
        proof.push_str(&format!(" :premises ({})", ids.join(" ")));
    }
    let args = s(v, "args");
    if !args.is_empty() {
        proof.push_str(&format!(" :args ({args})"));
    }
    proof.push_str(")\n");
    let mut c = v.clone();
    c["problem"] = J::String(problem);
    c["proof"] = J::String(proof);
    let parsed = guard(|| match parse(&c) {
        Ok(_) => json!({"v":"ok"}),
        Err(e) => err_json(&e),
    });
    if parsed["v"] != "ok" {
        return parsed;
    }
    let (problem, proof, rules, mut pool) = parse(&c).unwrap();
    let mut acc = Vec::new();
    let mut pan = Vec::new();
    let mut unk = Vec::new();
    let mut errs = serde_json::Map::new();
    for r in strs(v, "rules") {
        let mut pf = proof.clone();
        if let Some(ProofCommand::Step(st)) = pf.commands.last_mut() {
            st.rule = r.clone();
        }
        let res = catch_unwind(AssertUnwindSafe(|| {
            checker::ProofChecker::new(&mut pool, &rules, cconf(v)).check(&problem, &pf)
        }));
        match res {
            Err(e) => pan.push(json!([r, panic_msg(e)])),
            Ok(Ok(_)) | Ok(Err(Error::DoesNotReachEmptyClause)) => acc.push(r),
            Ok(Err(e)) => {
                if b(v, "want_err") {
                    errs.insert(r.clone(), J::String(format!("{e}")));
                }
                if let Error::Checker { inner: checker::error::CheckerError::UnknownRule, .. } = e {
                    unk.push(r);
                }
            }
        }
    }
    let mut o = json!({"v":"ok","acc":acc,"pan":pan});
    if !unk.is_empty() {
        o["unk"] = json!(unk);
    }
    if b(v, "want_err") {
        o["err"] = J::Object(errs);
    }
    o
}

fn print(pool: &mut PrimitivePool, problem: &Problem, proof: &Proof, sharing: bool) -> String {
    let mut buf = Vec::new();
    write_proof_to_dest(pool, &problem.prelude, proof, &mut buf, sharing).unwrap();
    String::from_utf8(buf).unwrap()
}

fn cmd_json(c: &ProofCommand) -> J {
    fn cl(v: &[Rc<Term>]) -> J {
        J::Array(v.iter().map(|t| J::String(format!("{:#}", t.as_ref()))).collect())
    }
    match c {
        ProofCommand::Assume { id, term } => json!({"a":id,"t":format!("{:#}", term.as_ref())}),
        ProofCommand::Step(s) => json!({"s":s.id,"cl":cl(&s.clause),"r":s.rule,"p":s.premises,"args":cl(&s.args),"d":s.discharge}),
        ProofCommand::Subproof(s) => json!({"sub":s.commands.iter().map(cmd_json).collect::<Vec<_>>(),
            "args": s.args.iter().map(|a| match a {
                AnchorArg::Variable((n, so)) => json!(["v", n, format!("{:#}", so.as_ref())]),
                AnchorArg::Assign((n, so), t) => json!(["a", n, format!("{:#}", so.as_ref()), format!("{:#}", t.as_ref())]),
            }).collect::<Vec<_>>()}),
    }
}

/// Print a parsed proof and parse it back (in the same pool, so that equal terms are the same
/// allocation), compare the ASTs, and compare verdicts.
fn run_roundtrip(v: &J) -> J {
    guard(|| {
        let mut pool = PrimitivePool::new();
        let r = parser::parse_instance_with_pool(
            s(v, "problem").as_bytes(), s(v, "proof").as_bytes(), None, pconf(v), &mut pool);
        let (problem, proof, _) = match r {
            Ok(x) => x,
            Err(e) => return err_json(&e),
        };
        let mut out = json!({"v":"ok"});
        for sharing in [false, true] {
            let key = if sharing { "sh" } else { "ns" };
            let text = print(&mut pool, &problem, &proof, sharing);
            let r2 = parser::parse_instance_with_pool(
                s(v, "problem").as_bytes(), text.as_bytes(), None, pconf(v), &mut pool);
            out[key] = match r2 {
                Err(e) => json!({"text":text,"re":err_json(&e)}),
                Ok((_, proof2, _)) => {
                    let same = proof.commands == proof2.commands;
                    let defs = proof.constant_definitions == proof2.constant_definitions;
                    let text2 = print(&mut pool, &problem, &proof2, sharing);
                    let mut v2 = v.clone();
                    v2["proof"] = J::String(text.clone());
                    // the same in a fresh pool
                    let again = guard(|| {
                        let mut pool = PrimitivePool::new();
                        match parser::parse_instance_with_pool(
                            s(v, "problem").as_bytes(), s(v, "proof").as_bytes(), None, pconf(v), &mut pool) {
                            Ok((problem, proof, _)) => json!({"v": "ok", "text": print(&mut pool, &problem, &proof, sharing)}),
                            Err(e) => err_json(&e),
                        }
                    });
                    let verdict = if b(v, "noverdict") { J::Null } else { check_seq(&v2,false) };
                    json!({"text":text,"same":same,"defs":defs,"fix": text == text2,"det": again["text"] == json!(text),
                        "read":canon_all(&problem, &proof2),"verdict":verdict})
                }
            };
        }
        if !b(v, "noverdict") { out["verdict"] = check_seq(v, false); }
        out
    })
}

fn pipeline(v: &J) -> Vec<elaborator::ElaborationStep> {
    use elaborator::ElaborationStep::*;
    strs(v, "pipeline").iter().map(|x| match x.as_str() {
        "polyeq" => Polyeq, "lia-generic" => LiaGeneric, "local" => Local,
        "uncrowd" => Uncrowd, "reordering" => Reordering, _ => Hole,
    }).collect()
}

fn elab_config(v: &J) -> elaborator::Config {
    elaborator::Config {
        lia_options: v.get("lia_solver").and_then(J::as_str).map(|x| elaborator::LiaGenericOptions {
            solver: x.into(), arguments: strs(v, "lia_args").into_iter().map(Into::into).collect() }),
        uncrowd_rotation: b(v, "rotate"),
        hole_options: v.get("hole_solver").and_then(J::as_str).map(|x| elaborator::HoleOptions {
            solver: x.into(), arguments: strs(v, "hole_args").into_iter().map(Into::into).collect() }),
    }
}

fn run_elab(v: &J) -> J {
    guard(|| {
        let rare = v.get("rare").and_then(J::as_str);
        let r = carcara::check_and_elaborate(
            s(v, "problem").as_bytes(), s(v, "proof").as_bytes(), rare.map(str::as_bytes),
            pconf(v), cconf(v), elab_config(v), pipeline(v), false);
        let (holey, problem, proof, mut pool) = match r {
            Err(e) => return err_json(&e),
            Ok(x) => x,
        };
        let mut out = json!({"v": if holey {"holey"} else {"valid"}});
        // The in-memory elaborated proof, checked as is
        let rules = parse(v).unwrap().2;
        let direct = |pool: &mut PrimitivePool, el: bool| {
            let mut cf = cconf(v);
            cf.elaborated = el;
            guard(|| verdict(&checker::ProofChecker::new(pool, &rules, cf).check(&problem, &proof)))
        };
        out["direct"] = direct(&mut pool, false);
        out["direct_el"] = direct(&mut pool, true);
        let text = print(&mut pool, &problem, &proof, b(v, "sharing"));
        let mut v2 = v.clone();
        v2["proof"] = J::String(text.clone());
        out["re"] = check_seq(&v2, false);
        v2["elaborated"] = J::Bool(true);
        out["re_el"] = check_seq(&v2, false);
        out["cmds"] = J::Array(proof.commands.iter().map(cmd_json).collect());
        out["text"] = J::String(text);
        out
    })
}

fn run_forest(v: &J) -> J {
    guard(|| {
        let (problem, proof, rules, mut pool) = match parse(v) {
            Err(e) => return err_json(&e),
            Ok(x) => x,
        };
        let before: Vec<J> = proof.commands.iter().map(cmd_json).collect();
        let forest = ProofNodeForest::from_commands(proof.commands.clone());
        let cmds = forest.into_commands();
        let after: Vec<J> = cmds.iter().map(cmd_json).collect();
        let p2 = Proof { commands: cmds, ..proof };
        let vd = verdict(&checker::ProofChecker::new(&mut pool, &rules, cconf(v)).check(&problem, &p2));
        json!({"v":"ok","before":before,"after":after,"verdict":vd, "orig": check_seq(v, false)})
    })
}

fn run_ast(v: &J) -> J {
    guard(|| match parse(v) {
        Err(e) => err_json(&e),
        Ok((problem, proof, _, _)) => json!({"v":"ok",
            "premises": problem.premises.iter().map(|t| format!("{:#}", t.as_ref())).collect::<Vec<_>>(),
            "prelude": format!("{}", problem.prelude),
            "defs": proof.constant_definitions.iter().map(|(n, t)| json!([n, format!("{:#}", t.as_ref())])).collect::<Vec<_>>(),
            "cmds": proof.commands.iter().map(cmd_json).collect::<Vec<_>>()}),
    })
}

fn run_slice(v: &J) -> J {
    guard(|| {
        let (problem, proof, rules, mut pool) = match parse(v) {
            Err(e) => return err_json(&e),
            Ok(x) => x,
        };
        let md = v.get("dist").and_then(J::as_u64).unwrap_or(0) as usize;
        let Some((sp, spr, asserts)) = carcara_slice(&proof, s(v, "id"), &mut pool, md, &problem) else {
            return json!({"v":"none"});
        };
        let text = print(&mut pool, &problem, &sp, b(v, "sharing"));
        let direct = guard(|| verdict(&checker::ProofChecker::new(&mut pool, &rules, cconf(v)).check(&spr, &sp)));
        let mut v2 = v.clone();
        v2["problem"] = J::String(asserts.clone());
        v2["proof"] = J::String(text.clone());
        json!({"v":"ok","text":text,"problem":asserts,"direct":direct,"re":check_seq(&v2,false),
            "cmds": sp.commands.iter().map(cmd_json).collect::<Vec<_>>(),
            "premises": spr.premises.iter().map(|t| format!("{:#}", t.as_ref())).collect::<Vec<_>>()})
    })
}

fn carcara_slice(proof: &Proof, id: &str, pool: &mut PrimitivePool, md: usize, problem: &Problem)
    -> Option<(Proof, Problem, String)> {
    let (sp, asserts) = slice_call(proof, id, pool, md)?;
    // What the command line tool does: prelude, one assert per assumption, then check-sat / exit
    let mut buf: Vec<u8> = Vec::new();
    write!(&mut buf, "{}", problem.prelude).unwrap();
    write_asserts(pool, &problem.prelude, &mut buf, &asserts, false).unwrap();
    let mut spr = Problem::default();
    spr.premises = asserts.into_iter().collect();
    Some((sp, spr, String::from_utf8(buf).unwrap()))
}

fn slice_call(proof: &Proof, id: &str, pool: &mut PrimitivePool, md: usize) -> Option<(Proof, Vec<Rc<Term>>)> {
    let r = slice::slice(proof, id, pool, md);
    r
}

/// Terms: parse each under the declarations, then apply the requested operation.
/// A description of a term that does not depend on the printer: variables with their sorts, values of constants.
fn canon(t: &Rc<Term>) -> String {
    fn all(ts: &[Rc<Term>]) -> String {
        ts.iter().map(canon).collect::<Vec<_>>().join(" ")
    }
    match t.as_ref() {
        Term::Var(n, so) => format!("{}:{}", n, canon(so)),
        Term::Const(Constant::Integer(i)) => format!("Int#{}", i),
        Term::Const(Constant::Real(r)) => format!("Real#{}", r),
        Term::Const(Constant::String(x)) => format!("String#{:?}", x.chars().map(|c| c as u32).collect::<Vec<_>>()),
        Term::Const(Constant::BitVec(v, w)) => format!("(_ BitVec {})#{}", w, v),
        Term::Op(op, a) => format!("({}{}{})", op, if a.is_empty() { "" } else { " " }, all(a)),
        Term::App(f, a) => format!("(@ {} {})", canon(f), all(a)),
        Term::ParamOp { op, op_args, args } => format!("(_{} [{}] {})", op,
            op_args.iter().map(|x| match x.as_ref() {
                Term::Const(Constant::Integer(i)) => i.to_string(),
                _ => canon(x),
            }).collect::<Vec<_>>().join(" "), all(args)),
        Term::Binder(b, vs, x) => format!("(!{} ({}) {})", b, vs.iter().map(|(n, so)| format!("{}:{}", n, canon(so))).collect::<Vec<_>>().join(" "), canon(x)),
        Term::Let(bs, x) => format!("(!let ({}) {})", bs.iter().map(|(n, v)| format!("{}={}", n, canon(v))).collect::<Vec<_>>().join(" "), canon(x)),
        Term::Sort(so) => match so {
            Sort::Function(a) => format!("(Func {})", all(a)),
            Sort::Atom(n, a) if a.is_empty() => n.to_string(),
            Sort::Atom(n, a) => format!("({} {})", n, all(a)),
            Sort::Array(x, y) => format!("(Array {} {})", canon(x), canon(y)),
            Sort::BitVec(w) => format!("(_ BitVec {})", w),
            Sort::Bool => "Bool".into(),
            Sort::Int => "Int".into(),
            Sort::Real => "Real".into(),
            Sort::String => "String".into(),
            Sort::RegLan => "RegLan".into(),
            other => format!("?{}", other),
        },
    }
}

/// What a proof says, command by command, flattened, independently of the printer.
fn canon_cmds(cmds: &[ProofCommand], depth: usize, out: &mut Vec<J>) {
    let ts = |x: &[Rc<Term>]| x.iter().map(canon).collect::<Vec<_>>();
    for c in cmds {
        match c {
            ProofCommand::Assume { id, term } => out.push(json!(["assume", depth, id, canon(term)])),
            ProofCommand::Step(st) => out.push(json!(["step", depth, st.id, ts(&st.clause), st.rule, st.premises, ts(&st.args), st.discharge])),
            ProofCommand::Subproof(sp) => {
                out.push(json!(["anchor", depth, sp.args.iter().map(|a| match a {
                    AnchorArg::Variable((n, so)) => format!("{}:{}", n, canon(so)),
                    AnchorArg::Assign((n, so), v) => format!("{}:{}:={}", n, canon(so), canon(v)),
                }).collect::<Vec<_>>()]));
                canon_cmds(&sp.commands, depth + 1, out);
            }
        }
    }
}

fn canon_all(problem: &Problem, proof: &Proof) -> J {
    let mut cmds = Vec::new();
    canon_cmds(&proof.commands, 0, &mut cmds);
    json!({"v":"ok","prem":problem.premises.iter().map(canon).collect::<Vec<_>>(),
        "defs":proof.constant_definitions.iter().map(|(n, t)| json!([n, canon(t)])).collect::<Vec<_>>(),"cmds":cmds})
}

/// Parse a problem and a proof, and report what they say.
fn run_read(v: &J) -> J {
    guard(|| match parse(v) {
        Err(e) => err_json(&e),
        Ok((problem, proof, _, _)) => canon_all(&problem, &proof),
    })
}

/// Parse each text as a term after the declarations, and report its sort and what it is.
fn run_sorts(v: &J) -> J {
    let out: Vec<J> = strs(v, "terms").iter().map(|t| guard(|| {
        let mut pool = PrimitivePool::new();
        let mut ps = match parser::Parser::new(&mut pool, pconf(v), s(v, "decl").as_bytes()) {
            Ok(p) => p,
            Err(e) => return err_json(&e),
        };
        if let Err(e) = ps.parse_problem() {
            return json!({"v":"decl","e":err_json(&e)});
        }
        if let Err(e) = ps.reset(t.as_bytes()) {
            return err_json(&e);
        }
        match ps.parse_term() {
            Ok(t) => {
                drop(ps);
                let so = pool.sort(&t);
                json!({"v":"ok","sort":canon(&so),"canon":canon(&t)})
            }
            Err(e) => err_json(&e),
        }
    })).collect();
    json!({"v":"ok","out":out})
}

fn run_term(v: &J) -> J {
    guard(|| {
        let mut pool = PrimitivePool::new();
        let mut ps = match parser::Parser::new(&mut pool, pconf(v), s(v, "decl").as_bytes()) {
            Ok(p) => p,
            Err(e) => return err_json(&e),
        };
        if let Err(e) = ps.parse_problem() {
            return err_json(&e);
        }
        let texts = strs(v, "terms");
        let mut ts = Vec::new();
        for t in &texts {
            if let Err(e) = ps.reset(t.as_bytes()) {
                return err_json(&e);
            }
            match ps.parse_term() {
                Ok(t) => ts.push(t),
                Err(e) => return err_json(&e),
            }
        }
        drop(ps);
        let show = |t: &Rc<Term>| format!("{:#}", t.as_ref());
        match s(v, "op") {
            "info" => {
                let info: Vec<J> = ts.iter().map(|t| {
                    let so = pool.sort(t);
                    let mut fv: Vec<String> = pool.free_vars(t).iter().map(show).collect();
                    fv.sort();
                    json!({"t":show(t),"sort":show(&so),"fv":fv})
                }).collect();
                // hash consing: the same text parses to the same allocation, distinct terms don't
                let mut eq = Vec::new();
                for i in 0..ts.len() {
                    for j in 0..i {
                        if ts[i] == ts[j] {
                            eq.push(json!([j, i]));
                        }
                    }
                }
                json!({"v":"ok","info":info,"eq":eq})
            }
            "subst" => {
                // terms = [target, x1, t1, x2, t2, ...]
                let mut map = IndexMap::new();
                for i in (1..ts.len()).step_by(2) {
                    map.insert(ts[i].clone(), ts[i + 1].clone());
                }
                match Substitution::new(&mut pool, map) {
                    Err(e) => json!({"v":"err","msg":format!("{e}")}),
                    Ok(mut su) => {
                        let r = su.apply(&mut pool, &ts[0]);
                        let r2 = su.apply(&mut pool, &ts[0]);
                        let mut fv: Vec<String> = pool.free_vars(&r).iter().map(show).collect();
                        fv.sort();
                        let so = pool.sort(&r);
                        json!({"v":"ok","t":show(&r),"same":r==r2,"fv":fv,"sort":show(&so)})
                    }
                }
            }
            "polyeq" => {
                let f = |re: bool, al: bool, na: bool, st: bool| {
                    let mut p = Polyeq::new().mod_reordering(re).alpha_equiv(al).mod_nary(na).mod_string_concat(st);
                    p.eq(&ts[0], &ts[1])
                };
                json!({"v":"ok","plain":f(false,false,false,false),"re":f(true,false,false,false),
                    "al":f(false,true,false,false),"real":f(true,true,false,false),"nary":f(true,false,true,false),
                    "naryal":f(true,true,true,false),
                    "ptr":ts[0]==ts[1]})
            }
            "eval" => {
                let r: Vec<J> = ts.iter().map(|t| guard(|| J::String(show(&t.evaluate(&mut pool))))).collect();
                json!({"v":"ok","r":r})
            }
            _ => json!({"v":"badop"}),
        }
    })
}

/// The work distribution chosen for a proof: per worker, the sequence of (depth, index, id, kind,
/// is_end_step) and the context usage counts.
fn run_sched(v: &J) -> J {
    guard(|| {
        let (_, proof, _, _) = match parse(v) {
            Err(e) => return err_json(&e),
            Ok(x) => x,
        };
        let mut out = serde_json::Map::new();
        for t in v["threads"].as_array().unwrap() {
            let n = t.as_u64().unwrap() as usize;
            let (sch, usage) = checker::Scheduler::new(n, &proof);
            let loads: Vec<J> = sch.loads.iter().map(|l| {
                let mut it = l.iter(&proof.commands);
                let mut xs = Vec::new();
                while let Some(c) = it.next() {
                    let kind = match c { ProofCommand::Assume{..} => "assume", ProofCommand::Step(_) => "step", ProofCommand::Subproof(_) => "anchor" };
                    let ctx = match c { ProofCommand::Subproof(s) => s.context_id as i64, _ => -1 };
                    let prem: Vec<String> = match c {
                        ProofCommand::Step(st) => st.premises.iter().map(|p| it.get_premise(*p).id().to_owned()).collect(),
                        _ => vec![],
                    };
                    xs.push(json!([c.id(), kind, it.depth(), it.is_end_step(), ctx, prem]));
                }
                J::Array(xs)
            }).collect();
            out.insert(n.to_string(), json!({"loads":loads,"usage":usage}));
        }
        json!({"v":"ok","n":J::Object(out)})
    })
}

/// The parallel checker with its workers interleaved as each of the given orders says.
struct Turns {
    order: Vec<usize>,
    pos: usize,
    running: Option<usize>,
    done: Vec<bool>,
    late: u64,
}

fn run_inter(v: &J) -> J {
    use std::sync::Condvar;
    let n = v["n"].as_u64().unwrap() as usize;
    let mut out: Vec<J> = Vec::new();
    let mut late = 0;
    for o in v["orders"].as_array().unwrap() {
        let order: Vec<usize> = o.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize - 1).collect();
        let turns = Arc::new((Mutex::new(Turns { order, pos: 0, running: None, done: vec![false; n], late: 0 }), Condvar::new()));
        let t2 = turns.clone();
        carcara::verif_hooks::install(Some(Arc::new(move |name: &'static str| {
            let th = std::thread::current();
            let Some(me) = th.name().and_then(|x| x.strip_prefix("worker-")).and_then(|x| x.parse::<usize>().ok()) else { return };
            let (m, cv) = &*t2;
            let mut g = m.lock().unwrap();
            if g.running == Some(me) { g.running = None; }
            if name == "end" {
                g.done[me] = true;
                cv.notify_all();
                return;
            }
            cv.notify_all();
            loop {
                while g.pos < g.order.len() && (g.order[g.pos] >= g.done.len() || g.done[g.order[g.pos]]) { g.pos += 1; }
                if g.pos >= g.order.len() { return; }
                if g.running.is_none() && g.order[g.pos] == me {
                    g.pos += 1;
                    g.running = Some(me);
                    return;
                }
                let (g2, to) = cv.wait_timeout(g, std::time::Duration::from_millis(2000)).unwrap();
                g = g2;
                if to.timed_out() {
                    // the worker whose turn it is waits for something else: let the others go on
                    g.running = None;
                    g.pos += 1;
                    g.late += 1;
                }
            }
        })));
        let r = check_par(v, n);
        carcara::verif_hooks::install(None);
        late += turns.0.lock().unwrap().late;
        if !out.contains(&r) { out.push(r); }
    }
    json!({"v":"ok","par":out,"late":late})
}

fn run_lia(v: &J) -> J {
    guard(|| {
        match carcara::generate_lia_smt_instances(s(v,"problem").as_bytes(), s(v,"proof").as_bytes(), None, pconf(v), b(v,"sharing")) {
            Err(e) => err_json(&e),
            Ok(r) => {
                let mut xs = Vec::new();
                for (id, text) in r {
                    // what an SMT solver would read: parse it back with carcara's own parser
                    let back = guard(|| match parser::parse_instance(text.as_bytes(), b"(step t (cl) :rule hole)" as &[u8], None, pconf(v)) {
                        Err(e) => err_json(&e),
                        Ok((p,_,_,_)) => json!({"v":"ok","premises":p.premises.iter().map(|t| format!("{:#}", t.as_ref())).collect::<Vec<_>>()}),
                    });
                    xs.push(json!({"id":id,"text":text,"back":back}));
                }
                json!({"v":"ok","inst":xs})
            }
        }
    })
}

/// Several documents one after the other, with one pool or one checker for all of them.
fn run_session(v: &J) -> J {
    let docs: Vec<(String, String)> =
        v["docs"].as_array().unwrap().iter().map(|d| (s(d, "problem").to_owned(), s(d, "proof").to_owned())).collect();
    let read = |pool: &mut PrimitivePool, d: &(String, String)| {
        parser::parse_instance_with_pool(d.0.as_bytes(), d.1.as_bytes(), None, pconf(v), pool)
    };
    let one_pool = || -> Vec<J> {
        let mut pool = PrimitivePool::new();
        docs.iter()
            .map(|d| match read(&mut pool, d) {
                Err(e) => err_json(&e),
                Ok((problem, proof, rules)) => {
                    verdict(&checker::ProofChecker::new(&mut pool, &rules, cconf(v)).check(&problem, &proof))
                }
            })
            .collect()
    };
    let one_checker = |again: bool| -> Vec<J> {
        let mut pool = PrimitivePool::new();
        let parsed: Vec<_> = docs.iter().map(|d| read(&mut pool, d)).collect();
        let rules = match parsed.iter().find_map(|p| p.as_ref().ok()) {
            Some(p) => p.2.clone(),
            None => return parsed.iter().map(|p| p.as_ref().map_or_else(err_json, |_| J::Null)).collect(),
        };
        let mut c = checker::ProofChecker::new(&mut pool, &rules, cconf(v));
        parsed
            .iter()
            .map(|p| match p {
                Err(e) => err_json(e),
                Ok((problem, proof, _)) => {
                    if again {
                        let mut st = checker::CheckerStatistics {
                            file_name: "this",
                            polyeq_time: Default::default(),
                            assume_time: Default::default(),
                            assume_core_time: Default::default(),
                            results: carcara::benchmarking::OnlineBenchmarkResults::new(),
                        };
                        let _ = c.check_with_stats(problem, proof, &mut st);
                    }
                    verdict(&c.check(problem, proof))
                }
            })
            .collect()
    };
    guard(|| json!({"v":"ok","pool":one_pool(),"checker":one_checker(false),"stats":one_checker(true)}))
}

fn parsing_panics(v: &J) -> bool {
    s(&guard(|| { let _ = parse(v); json!({"v": "ok"}) }), "v") == "panic"
}

/// Everything that can be asked about one document; the crashes, and the verdicts of the ways of checking.
fn run_all(v: &J) -> J {
    fn find(j: &J, at: &str, acc: &mut Vec<String>) {
        match j {
            J::Object(m) => {
                if m.get("v").and_then(J::as_str) == Some("panic") {
                    acc.push(format!("{}: {}", at, m.get("msg").and_then(J::as_str).unwrap_or("")));
                }
                m.values().for_each(|x| find(x, at, acc));
            }
            J::Array(xs) => xs.iter().for_each(|x| find(x, at, acc)),
            _ => (),
        }
    }
    let mut pan = Vec::new();
    let short = |j: &J| match (s(j, "v"), s(j, "msg")) { ("invalid", "noempty") => "noempty".to_owned(), (x, _) => x.to_owned() };
    let seq = check_seq(v, false);
    find(&seq, "check", &mut pan);
    let mut out = json!({"v": short(&seq), "step": seq["step"], "msg": seq["msg"]});
    if s(&seq, "v") == "perr" || s(&seq, "v") == "panic" && parsing_panics(v) {
        return out;
    }
    let mut ways = serde_json::Map::new();
    let mut add = |name: &str, j: J, pan: &mut Vec<String>| {
        find(&j, name, pan);
        ways.insert(name.to_owned(), J::String(short(&j)));
    };
    add("stats", check_seq(v, true), &mut pan);
    add("par", check_par(v, 2), &mut pan);
    add("parstats", check_par_stats(v, 3), &mut pan);
    let rt = run_roundtrip(v);
    find(&rt, "print", &mut pan);
    for k in ["ns", "sh"] {
        if let Some(x) = rt[k].get("re") {
            ways.insert(format!("print {k}"), J::String(format!("unreadable: {}", s(x, "msg"))));
        } else if v.get("rare").is_none() {
            ways.insert(format!("print {k}"), J::String(short(&rt[k]["verdict"])));
        }
    }
    let mut v2 = v.clone();
    v2["elaborated"] = J::Bool(true);
    find(&check_seq(&v2, false), "check elaborated", &mut pan);
    for rotate in [false, true] {
        let mut v2 = v.clone();
        v2["pipeline"] = json!(["polyeq", "lia-generic", "local", "uncrowd", "reordering", "hole"]);
        v2["rotate"] = J::Bool(rotate);
        find(&run_elab(&v2), "elaborate", &mut pan);
    }
    find(&run_forest(v), "forest", &mut pan);
    find(&run_lia(v), "lia", &mut pan);
    if let Ok((_, proof, _, _)) = parse(v) {
        let mut ids: Vec<String> = Vec::new();
        fn walk(cs: &[ProofCommand], ids: &mut Vec<String>) {
            for c in cs {
                ids.push(c.id().to_owned());
                if let ProofCommand::Subproof(s) = c { walk(&s.commands, ids); }
            }
        }
        walk(&proof.commands, &mut ids);
        for id in ids {
            for d in [0, 1] {
                let mut v2 = v.clone();
                v2["id"] = json!(id);
                v2["dist"] = json!(d);
                find(&run_slice(&v2), "slice", &mut pan);
            }
        }
    }
    out["ways"] = J::Object(ways);
    if !pan.is_empty() {
        out["pan"] = json!(pan);
    }
    out
}

fn dispatch(v: &J) -> J {
    match s(v, "k") {
        "proof" => run_proof(v),
        "step" => run_step(v),
        "roundtrip" => run_roundtrip(v),
        "elab" => run_elab(v),
        "forest" => run_forest(v),
        "ast" => run_ast(v),
        "slice" => run_slice(v),
        "term" => run_term(v),
        "sorts" => run_sorts(v),
        "read" => run_read(v),
        "sched" => run_sched(v),
        "lia" => run_lia(v),
        "inter" => run_inter(v),
        "all" => run_all(v),
        "session" => run_session(v),
        _ => json!({"v":"badkind"}),
    }
}

fn main() {
    if std::env::var("VH_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let limit: u64 = std::env::var("VH_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(60);
    let out = Arc::new(Mutex::new(std::io::stdout()));
    let o2 = out.clone();
    std::thread::spawn(move || {
        let mut last = 0;
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let x = BEAT.load(Ordering::Relaxed);
            if x == last { same += 1 } else { same = 0; last = x }
            if same > limit {
                let mut o = o2.lock().unwrap();
                let _ = writeln!(o, "{{\"v\":\"hang\"}}");
                let _ = o.flush();
                std::process::exit(3);
            }
        }
    });
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let stdin = std::io::stdin();
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            if line.trim().is_empty() { continue; }
            let v: J = serde_json::from_str(&line).unwrap();
            let r = dispatch(&v);
            BEAT.fetch_add(1, Ordering::Relaxed);
            let mut o = out.lock().unwrap();
            writeln!(o, "{}", r).unwrap();
            o.flush().unwrap();
        }
    }).unwrap();
    h.join().unwrap();
    std::process::exit(0);
}
