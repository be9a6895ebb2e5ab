mod check;
mod dd;
mod exec;
mod ir;
mod props;
mod rel;
mod spec;
mod tm;

use check::*;
use std::time::{Duration, Instant};

pub struct Job {
    pub id: String,
    pub tier: String,
    pub out: String,
    pub verif: String,
}
static JOB: std::sync::OnceLock<Job> = std::sync::OnceLock::new();

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn report(v: &Violation) {
    let j = JOB.get().unwrap();
    let path = format!("{}/evidence/{}.replay.txt", j.verif, j.id);
    let mut s = format!("property {}\nobligation {}\nfailed: {}\n", j.id, v.task, v.what);
    for (f, n, a, o) in &v.calls {
        s += &format!("call {f} {n}");
        for x in a {
            s += &format!(" {:016x}", x.to_bits());
        }
        s += "\n";
        s += &format!("  arguments {a:?}\n");
        match o {
            Some(o) => s += &format!("  returned {o:?}\n"),
            None => s += "  panicked\n",
        }
    }
    s += &format!("replay: {}/check.sh replay {}\n", j.verif, path);
    std::fs::write(&path, &s).ok();
    eprint!("{s}");
    let tail = if v.concrete { "" } else { " no-failing-input-found" };
    println!("VIOLATION property={} replay={}{}", j.id, path, tail);
}

pub fn report_hang(v: Violation) {
    report(&v);
    std::process::exit(1);
}

fn replay(nat: &Native, file: &str) -> i32 {
    let t = std::fs::read_to_string(file).unwrap_or_default();
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("call ") {
            let mut it = r.split(' ');
            let f = it.next().unwrap();
            let n: u64 = it.next().unwrap().parse().unwrap();
            let a: Vec<f64> = it.map(|x| f64::from_bits(u64::from_str_radix(x, 16).unwrap())).collect();
            println!("{f} n={n} {a:?} -> {:?}", nat.call(f, n, &a, 8));
        } else if l.starts_with("failed") || l.starts_with("obligation") {
            println!("{l}");
        }
    }
    0
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t0 = Instant::now();
    if a.get(1).map(|s| s.as_str()) == Some("selftest") {
        std::process::exit(props::selftest_io());
    }
    // fpv <verif> <irdir> <id> <tier>
    let (verif, irdir) = (a[1].clone(), a[2].clone());
    let nat = Native::open(&format!("{irdir}/libpharness.so")).unwrap_or_else(|e| {
        eprintln!("{e}");
        std::process::exit(2)
    });
    if a[3] == "replay" {
        std::process::exit(replay(&nat, &a[4]));
    }
    let (id, tier) = (a[3].clone(), a[4].clone());
    JOB.set(Job { id: id.clone(), tier: tier.clone(), out: String::new(), verif: verif.clone() }).ok();
    let mut m = ir::Module::default();
    for e in std::fs::read_dir(&irdir).unwrap().flatten() {
        let n = e.file_name().to_string_lossy().to_string();
        if n.ends_with(".ll") {
            m.load(&std::fs::read_to_string(e.path()).unwrap(), &n);
        }
    }
    let verbose = std::env::var("FPV_VERBOSE").is_ok();
    if verbose {
        eprintln!("loaded {} functions in {:.2}s", m.funcs.len(), t0.elapsed().as_secs_f64());
    }
    let only = std::env::var("FPV_ONLY").ok();
    let Some(mut plan) = props::plan(&id, &tier) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    if let Some(o) = only {
        plan.tasks.retain(|t| t.name().contains(&o));
    }
    let secs: f64 = std::env::var("FPV_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(plan.secs);
    let d = Driver { m: &m, nat: &nat, tasks: plan.tasks, deadline: Instant::now() + Duration::from_secs_f64(secs), verbose, deep: std::env::var("FPV_DEEP").ok().and_then(|s| s.parse().ok()).unwrap_or(14) };
    let mut st = Stats::default();
    let v = d.run(&mut st);
    if verbose {
        eprintln!("{:#?}", St(&st));
    }
    let g = if v.is_none() { d.guards() } else { Guards::default() };
    for w in &g.disagree {
        eprintln!("self-check: {w}");
    }
    for w in &g.vacuous {
        eprintln!("self-check: no perturbed result is refuted by: {w}");
    }
    let mut relnames = vec![];
    for (f, odd, neg) in &plan.rels {
        let (r, fs, pts) = rel::Rels::prove(&m, f, *odd);
        let what = format!("{f}(n, -x) == {}{f}(n, x) for every {} n and every x", if *neg { "-" } else { "" }, if *odd { "odd" } else { "even" });
        st.paths += pts;
        match r {
            Ok(x) if x == *neg => {
                st.proved += 1;
                st.funcs.extend(fs);
                relnames.push(format!("{what}: 1 of 1 discharged (relational fixpoint)"));
            }
            r => {
                st.unresolved += 1;
                relnames.push(format!("{what}: 0 of 1 discharged"));
                st.where_unres.push(format!("{what}: {}", match r { Ok(_) => "the other parity was derived".to_string(), Err(e) => e }));
            }
        }
        // guard: the opposite relation must not be derivable
        if let (Ok(x), _, _) = rel::Rels::prove(&m, f, !*odd) {
            if x == *neg {
                st.where_unres.push(format!("{what}: derived for both parities"));
            }
        }
    }
    if verbose {
        eprintln!("{relnames:#?} {:#?}", st.where_unres);
    }
    let mut names: Vec<String> = d
        .tasks
        .iter()
        .enumerate()
        .map(|(i, t)| {
            let (p, n) = st.per.get(&i).copied().unwrap_or((0, 0));
            if t.bounded() > 0 {
                format!("{}: bounded, {} native samples per cell", t.name(), t.bounded())
            } else {
                format!("{}: {p} of {n} discharged", t.name())
            }
        })
        .collect();
    if names.len() > 400 {
        let k = names.len() - 400;
        names.truncate(400);
        names.push(format!("and {k} more of the same forms"));
    }
    names.extend(relnames);
    let mut funcs: Vec<String> = st.funcs.iter().map(|f| short(f)).collect();
    funcs.sort();
    funcs.dedup();
    let obl = st.proved + st.unresolved + st.timeout;
    let list = |v: &[String]| format!("[{}]", v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    let mut assume = plan.assume.clone();
    assume.extend(props::TRUSTED.iter().map(|s| s.to_string()));
    assume.extend(props::ASSUMED.iter().map(|s| s.to_string()));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{\"obligations\":{},\"discharged\":{},\"undecided_cells\":{},\"timeout_cells\":{},\"bounded_cells\":{},\"proved_fraction_of_domain\":{:.6},\"native_samples\":{},\"paths\":{},\"expression_nodes\":{},\"infeasible_paths\":{},\"contracts\":{},\"functions_under_contract\":{},\"undecided\":{},\"unsupported\":{},\"guard_points_compared_with_native\":{},\"guard_disagreements\":{},\"guard_contracts_perturbed\":{},\"guard_contracts_not_refuting\":{},\"checker_cmd\":{},\"back_end\":\"fpv: symbolic execution of the optimised LLVM IR of /repo; postconditions discharged by Taylor models in double-double arithmetic with adjoint rounding bounds, or by term identity\",\"solver_seconds\":{:.2},\"trusted_base\":{},\"explanation\":{}}},\"assumptions\":{},\"wall_s\":{:.2},\"violations\":{}}}\n",
        jstr(&id), jstr(&tier), seed, jstr(plan.level), obl, st.proved, st.unresolved, st.timeout, st.bounded,
        st.proved_measure / st.total_measure.max(1e-300), st.samples, st.paths, st.nodes, st.infeasible,
        list(&names), list(&funcs), list(&st.where_unres.iter().take(20).cloned().collect::<Vec<_>>()),
        list(&st.unsupported.iter().cloned().collect::<Vec<_>>()),
        g.compared, list(&g.disagree), g.mutated, list(&g.vacuous),
        jstr(&format!("{verif}/check.sh {id} {tier}")), st.secs,
        list(&props::TRUSTED.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        jstr(&plan.note),
        list(&assume), t0.elapsed().as_secs_f64(), v.is_some() as u32
    );
    std::fs::create_dir_all(format!("{verif}/evidence")).ok();
    std::fs::write(format!("{verif}/evidence/{id}.json"), ev).ok();
    if let Some(v) = v {
        report(&v);
        std::process::exit(1);
    }
    println!("{id}: {} of {} obligations discharged, {} undecided, {} out of time, {} bounded, {} native samples, guards {}/{} {}/{}, {:.1}s", st.proved, obl, st.unresolved, st.timeout, st.bounded, st.samples, g.disagree.len(), g.compared, g.vacuous.len(), g.mutated, t0.elapsed().as_secs_f64());
}

struct St<'a>(&'a Stats);
impl std::fmt::Debug for St<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let s = self.0;
        writeln!(f, "cells {} proved {} unresolved {} timeout {} paths {} dead {} samples {} nodes {} fraction {:.5} secs {:.1}", s.cells, s.proved, s.unresolved, s.timeout, s.paths, s.infeasible, s.samples, s.nodes, s.proved_measure / s.total_measure, s.secs)?;
        let mut r: Vec<_> = s.reasons.iter().collect();
        r.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, v) in r.iter().take(25) {
            writeln!(f, "  {v} {k}")?;
        }
        for w in s.where_unres.iter().take(6) {
            writeln!(f, "  ? {w}")?;
        }
        for w in &s.unsupported {
            writeln!(f, "  ! {}", &w[..w.len().min(150)])?;
        }
        Ok(())
    }
}
