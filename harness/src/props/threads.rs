//! C37: threads that parse, render and call helpers at the same time
use super::language::{gen_params, helper_call, near, setup};
use super::*;
use crate::sched::{together, Place, Sent};
use std::sync::Arc;

#[derive(Clone)]
enum Job {
    Helper(&'static str, Vec<V>),
    Parse(String),
    Data(String),
    /// template, parameters
    Render(usize, Vec<V>),
    Front(usize),
}
/// what a thread got, in a form that can be compared and sent
#[derive(Clone, Debug, PartialEq)]
enum Got {
    Value(Option<String>),
    Parsed(Option<String>),
    Rendered(Option<(String, Vec<(String, String)>)>, Vec<String>),
    Front(Vec<(String, String)>),
}
fn exports(x: &Exports) -> Vec<(String, String)> {
    let mut v: Vec<_> = x.iter().map(|(k, d)| (k.clone(), V::from_td(d).canon())).collect();
    v.sort();
    v
}
fn perform(jobs: &[Job], temps: &[TreeTemplate], enter: impl FnOnce()) -> Vec<Got> {
    let fm = func_man::default_func_man();
    let (h, log) = helpers();
    let h = h.with_defaults();
    enter();
    jobs.iter()
        .map(|j| match j {
            Job::Helper(n, a) => {
                let tds: Vec<TData> = a.iter().map(|v| v.td()).collect();
                Got::Value(direct(&fm, n, &tds).ok().map(|d| V::from_td(&d).canon()))
            }
            Job::Parse(t) => Got::Parsed(parse(t).ok().map(|t| format!("{:?}", t))),
            Job::Data(t) => Got::Value(parse_data(t).ok().map(|d| V::from_td(&d).canon())),
            Job::Render(i, a) => {
                let tds: Vec<TData> = a.iter().map(|v| v.td()).collect();
                let ps: Vec<&dyn TParam> = tds.iter().map(|t| t as &dyn TParam).collect();
                log.borrow_mut().clear();
                let r = run_exp(&temps[*i], &ps, &mut BasicTemps::new(), &h);
                let l = log.borrow().clone();
                Got::Rendered(r.ok().map(|(s, x)| (s, exports(&x))), l)
            }
            Job::Front(i) => Got::Front(exports(&front_matter(&temps[*i], &h))),
        })
        .collect()
}
fn show_job(j: &Job) -> String {
    match j {
        Job::Helper(n, a) => format!("{} {}", n, show_args(a)),
        Job::Parse(t) => format!("parse {:?}", t),
        Job::Data(t) => format!("parse as data {:?}", t),
        Job::Render(i, a) => format!("render T{} on {}", i, show_args(a)),
        Job::Front(i) => format!("front matter of T{}", i),
    }
}
fn c37(s: &mut Source, ctx: &mut Ctx) -> R {
    let n = s.size(2, 3);
    // templates all threads share
    let mut temps = vec![];
    let mut known: Vec<(Vec<Item>, Vec<V>)> = vec![];
    for i in 0..s.size(0, 2) {
        let params = gen_params(s, 2);
        let b = {
            let mut g = Gen::new(s, Weights { items: 8, ..MIXED }, params.len());
            setup(&mut g, &params);
            g.program()
        };
        let text = print(s, &b, true);
        ctx.note(format!("T{}: {}", i, text));
        match parse(&text) {
            Ok(t) => temps.push(t),
            Err(e) => crate::bail!("language:parse", "a valid program does not parse: {}\n{}", e, text),
        }
        known.push((b, params));
    }
    // what has been asked for already, to ask for it or something near it again
    let mut asked: Vec<Job> = vec![];
    let mut lists: Vec<Vec<Job>> = vec![];
    for t in 0..n {
        let mut l = vec![];
        for _ in 0..s.size(1, 5) {
            let j = if !asked.is_empty() && s.chance(2, 3) {
                let mut j = s.pick(&asked).clone();
                match &mut j {
                    Job::Helper(_, a) if s.chance(2, 3) => {
                        let i = s.draw(a.len() as u64) as usize;
                        a[i] = match &a[i] {
                            V::Str(x) => V::Str(near(s, x)),
                            V::UInt(x) => V::UInt(x + 1),
                            V::List(l) if !l.is_empty() => V::List(l[1..].to_vec()),
                            v => v.clone(),
                        }
                    }
                    Job::Parse(t) | Job::Data(t) if s.chance(1, 3) => *t = near(s, t),
                    _ => {}
                }
                j
            } else {
                match s.weighted(&[8, 2, 2, 4, 3]) {
                    1 => {
                        let k = s.size(1, 4);
                        Job::Parse(super::total::program_text(s, k))
                    }
                    2 => Job::Data((*s.pick(&["[1,2,\"a\"]", "{\"a\":1,\"b\":[null,true]}", "-5", "1.5e3", "12/3/2001", "\"x\\ny\"", "[[],[1],{}]", "r#\"q\"#", "[1 2"])).into()),
                    3 if !known.is_empty() => {
                        let i = s.draw(known.len() as u64) as usize;
                        Job::Render(i, known[i].1.clone())
                    }
                    4 if !known.is_empty() => Job::Front(s.draw(known.len() as u64) as usize),
                    _ => {
                        let (n, a) = helper_call(s);
                        Job::Helper(n, a)
                    }
                }
            };
            asked.push(j.clone());
            l.push(j);
        }
        ctx.note(format!("thread {}: {}", t, l.iter().map(show_job).collect::<Vec<_>>().join("; ")));
        lists.push(l);
    }
    let scale = *s.pick(&[4u64, 30, 30, 200, 200, 2000]);
    let mut plan: Vec<(u64, usize)> = (0..s.size(1, 60)).map(|_| (s.draw(scale), s.draw(2) as usize)).collect();
    ctx.note(format!("turns (edges, next): {:?}", plan));
    // renderings whose outcome is not specified (map order) say nothing
    for l in &lists {
        for j in l {
            let mut m = Model::default();
            match j {
                Job::Render(i, a) => drop(m.program(&known[*i].0, a.clone())),
                Job::Front(i) => drop(m.front(&known[*i].0)),
                _ => {}
            }
            if m.unspecified {
                ctx.class("discarded-unspecified");
                return Ok(());
            }
        }
    }
    if crate::sched::STOLEN.load(std::sync::atomic::Ordering::SeqCst) > 2000 {
        plan.truncate(3);
        ctx.class("short-plan");
    }
    ctx.op("alone");
    let temps = Arc::new(temps);
    let alone: Vec<Vec<Got>> = lists.iter().map(|l| perform(l, &temps, || ())).collect();
    ctx.op("together");
    let jobs: Vec<Box<dyn FnOnce(&Place) -> Vec<Got>>> = lists
        .iter()
        .map(|l| {
            let (l, t) = (Sent(l.clone()), temps.clone());
            Box::new(move |p: &Place| perform(&l.get(), &t, || p.enter())) as Box<dyn FnOnce(&Place) -> Vec<Got>>
        })
        .collect();
    let (got, switches, steals) = together(jobs, plan);
    ctx.nontrivial = switches > 1;
    ctx.class(if switches > 8 { "many-turns" } else { "few-turns" });
    ctx.class_if(steals > 0, "turn-taken");
    for (t, (want, got)) in alone.iter().zip(&got).enumerate() {
        let got = match got {
            Some(g) => g,
            None => crate::bail!("C37:panic", "thread {} panics, alone it gives {:?}", t, want),
        };
        for (i, (w, g)) in want.iter().zip(got).enumerate() {
            crate::ensure!(w == g, "C37:differs", "thread {}, step {}: {}\nalone gives {:?}\ntogether    {:?}", t, i, show_job(&lists[t][i]), w, g);
        }
    }
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C37",
        rule: "two or three threads with up to five jobs each (helper calls equal or close to one another's, parsing, rendering of shared templates), run in turns that pass on after a generated number of edges of the code under test; non-trivial: the turn passes at least twice",
        quick: 40_000,
        factor: 25,
        fuel: 400_000_000,
        run: c37,
        pins: vec![],
        assumptions: vec!["switches happen at edges of templito and its parser library, not inside other libraries", "each thread has its own helper and template managers"],
    }]
}
