mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use exec::*;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut params = vec![];
    let mut merges = vec![];
    let mut time = 600u64;
    let mut steps = 2_000_000_000u64;
    let mut max_paths = u64::MAX;
    let mut max_alloc = 1u64 << 24;
    let mut worker = (0usize, 1usize);
    let mut seed = 1u64;
    let mut trace = false;
    let mut prof = false;
    let mut dump = None;
    let mut mux = 4096;
    let mut max_viol = 50;
    let mut check_only = false;
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let mut nx = || {
            i += 1;
            args[i].clone()
        };
        match a {
            "--ll" => ll = nx(),
            "--entry" => entry = nx(),
            "--out" => out = nx(),
            "--param" => {
                let s = nx();
                let (k, v) = s.split_once('=').unwrap();
                params.push((k.to_string(), v.parse::<u64>().unwrap()));
            }
            "--merge" => merges.push(nx()),
            "--time" => time = nx().parse().unwrap(),
            "--steps" => steps = nx().parse().unwrap(),
            "--max-paths" => max_paths = nx().parse().unwrap(),
            "--max-alloc" => max_alloc = nx().parse().unwrap(),
            "--max-viol" => max_viol = nx().parse().unwrap(),
            "--mux" => mux = nx().parse().unwrap(),
            "--worker" => {
                let s = nx();
                let (k, n) = s.split_once('/').unwrap();
                worker = (k.parse().unwrap(), n.parse().unwrap());
            }
            "--seed" => seed = nx().parse().unwrap(),
            "--trace" => trace = true,
            "--prof" => prof = true,
            "--dump" => dump = Some(nx()),
            "--parse-all" => check_only = true,
            _ => panic!("arg {}", a),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let m = ir::Module::load(&ll);
    let load_s = t0.elapsed().as_secs_f64();
    if check_only {
        let mut m = m;
        let mut n = 0;
        for i in 0..m.fns.len() as u32 {
            if m.func(i).is_some() {
                n += 1;
            }
        }
        println!("parsed {} functions, {} globals in {:.2}s", n, m.globals.len(), t0.elapsed().as_secs_f64());
        return;
    }
    let lim = Limits { max_steps: steps, deadline: Instant::now() + Duration::from_secs(time), max_paths, max_alloc, mux_limit: mux, max_states: 1_000_000 };
    let mut x = Exec::new(m, lim);
    x.params = params.iter().cloned().collect();
    x.merge_pats = merges;
    x.trace = trace;
    x.prof_on = prof;
    x.s.dump = dump;
    x.rng = seed;
    x.max_viol = max_viol;
    let init = x.start(&entry);
    x.explore(init, worker.0, worker.1);
    let wall = t0.elapsed().as_secs_f64();
    let mut fns: Vec<String> = x.funcs_used.iter().map(|f| x.m.fns[*f as usize].pretty.clone()).collect();
    fns.sort();
    let mut j = String::from("{\n");
    j += &format!(" \"entry\": \"{}\",\n \"worker\": \"{}/{}\",\n", entry, worker.0, worker.1);
    j += &format!(" \"params\": {{{}}},\n", params.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", "));
    let s = &x.st;
    j += &format!(
        " \"paths_done\": {}, \"paths_killed\": {}, \"paths_violating\": {}, \"paths_error\": {}, \"paths_truncated\": {}, \"forks\": {}, \"steps\": {}, \"branches_sym\": {}, \"merges\": {}, \"merged_states\": {},\n",
        s.paths_done, s.paths_killed, s.paths_panic, s.paths_error, s.paths_truncated, s.forks, s.steps, s.branches_sym, s.merges, s.merged_states
    );
    j += &format!(" \"checks\": {}, \"checks_const\": {}, \"checks_solver\": {},\n", s.checks, s.checks_const, s.checks_solver);
    let q = &x.s.stats;
    j += &format!(
        " \"z3_queries\": {}, \"z3_sat\": {}, \"z3_unsat\": {}, \"z3_unknown\": {}, \"z3_cache_hits\": {}, \"byte_domain_queries\": {}, \"model_hits\": {}, \"z3_seconds\": {:.3}, \"z3_max_ms\": {:.1},\n",
        q.queries,
        q.sat,
        q.unsat,
        q.unknown,
        q.cache_hits,
        q.byte_domain,
        q.model_hits,
        q.time_us as f64 / 1e6,
        q.max_us as f64 / 1e3
    );
    j += &format!(" \"complete\": {}, \"timed_out\": {}, \"sym_bytes\": {}, \"load_s\": {:.2}, \"wall_s\": {:.2}, \"exprs\": {},\n", !x.timed_out && !x.stop_all && s.paths_error == 0 && s.paths_truncated == 0, x.timed_out, x.vars_max, load_s, wall, x.a.nodes.len());
    j += &format!(" \"errors\": {{{}}},\n", x.errors.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect::<Vec<_>>().join(", "));
    j += &format!(
        " \"covers\": {{{}}},\n",
        x.cover_names.iter().zip(&x.cover_hits).map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect::<Vec<_>>().join(", ")
    );
    j += &format!(" \"violation_counts\": {{{}}},\n", x.viol_counts.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect::<Vec<_>>().join(", "));
    j += &format!(
        " \"violations\": [{}],\n",
        x.viols
            .iter()
            .map(|v| format!(
                "{{\"label\": \"{}\", \"tape\": \"{}\", \"notes\": [{}], \"stack\": [{}]}}",
                esc(&v.label),
                hex(&v.tape),
                v.notes.iter().map(|n| format!("{}", n)).collect::<Vec<_>>().join(", "),
                v.stack.iter().map(|n| format!("\"{}\"", esc(n))).collect::<Vec<_>>().join(", ")
            ))
            .collect::<Vec<_>>()
            .join(",\n  ")
    );
    j += &format!(
        " \"samples\": [{}],\n",
        x.samples
            .iter()
            .map(|v| format!(
                "{{\"tape\": \"{}\", \"notes\": [{}], \"covers\": [{}], \"constraints\": {}, \"steps\": {}}}",
                hex(&v.tape),
                v.notes.iter().map(|n| format!("{}", n)).collect::<Vec<_>>().join(", "),
                v.covers.iter().map(|n| format!("\"{}\"", esc(n))).collect::<Vec<_>>().join(", "),
                v.constraints,
                v.steps
            ))
            .collect::<Vec<_>>()
            .join(",\n  ")
    );
    j += &format!(" \"functions\": [{}]\n}}\n", fns.iter().map(|f| format!("\"{}\"", esc(f))).collect::<Vec<_>>().join(",\n  "));
    if prof {
        let mut p: Vec<_> = x.prof.iter().collect();
        p.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (f, n) in p.iter().take(30) {
            eprintln!("{:>12} {}", n, x.m.fns[**f as usize].pretty);
        }
        let mut p: Vec<_> = x.fork_sites.iter().collect();
        p.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (f, n) in p.iter().take(30) {
            eprintln!("{:>8} forks {}", n, f);
        }
    }
    if out.is_empty() {
        print!("{}", j);
    } else {
        std::fs::write(&out, j).unwrap();
    }
}

fn main() {
    std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap().join().unwrap();
}
