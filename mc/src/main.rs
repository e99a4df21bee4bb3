mod agree;
mod alph;
mod engine;
mod err;
mod hist;
mod num;
mod orb;
mod rel;
mod refm;
mod tim;
mod txt;

use engine::*;
use std::time::Instant;

fn spaces(property: &str, thorough: bool) -> Vec<Space> {
    match property {
        "C01" => num::c01(thorough),
        "C02" => num::c02(thorough),
        "C03" => num::c03(thorough),
        "C04" => orb::c04(thorough),
        "C05" => orb::c05(thorough),
        "C06" => orb::c06(thorough),
        "C07" => txt::c07(thorough),
        "C08" => txt::c08(thorough),
        "C09" => txt::c09(thorough),
        "C10" => orb::c10(thorough),
        "C11" => txt::c11(thorough),
        "C12" => tim::c12(thorough),
        "C13" => tim::c13(thorough),
        "C14" => tim::c14(thorough),
        "C15" => tim::c15(thorough),
        "C16" => orb::c16(thorough),
        "C17" => rel::c17(thorough),
        "C18" => rel::c18(thorough),
        "C20" => rel::c20(thorough),
        "C21" => hist::c21(thorough),
        "C22" => rel::c22(thorough),
        "C23" => err::c23(thorough),
        "C24" => orb::c24(thorough),
        "C25" => rel::c25(thorough),
        _ => {
            eprintln!("ENGINE-ERROR: unknown property {property}");
            std::process::exit(2);
        }
    }
}

fn write_report(path: &str, report: &Report, wall: f64) {
    let mut o = String::from("{");
    o.push_str(&format!(
        "\"states\":{},\"transitions\":{},\"traces\":{},\"points\":{},\"wall_s\":{:.3},",
        report.states, report.transitions, report.traces, report.points, wall
    ));
    o.push_str("\"classes\":{");
    let cs: Vec<String> = report.classes.iter().map(|(k, v)| format!("{}:{}", json_string(k), v)).collect();
    o.push_str(&cs.join(","));
    o.push_str("},\"spaces\":[");
    let ss: Vec<String> = report
        .spaces
        .iter()
        .map(|(n, s, w)| format!("{{\"name\":{},\"size\":{},\"wall_s\":{:.3}}}", json_string(n), s, w))
        .collect();
    o.push_str(&ss.join(","));
    o.push_str("],\"samples\":[");
    let ss: Vec<String> = report.samples.iter().map(|s| json_string(s)).collect();
    o.push_str(&ss.join(","));
    o.push(']');
    if let Some(v) = &report.violation {
        o.push_str(&format!(
            ",\"violation\":{{\"space\":{},\"index\":{},\"message\":{}}}",
            json_string(v.space),
            v.index,
            json_string(&v.message)
        ));
    }
    o.push_str("}\n");
    std::fs::write(path, o).unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    install_panic_hook();
    let arg = |k: usize| args.get(k).map(|s| s.as_str()).unwrap_or("");
    match arg(1) {
        // mc run PROPERTY TIER OUT CRUMBS
        "run" => {
            let property = arg(2).to_string();
            let thorough = arg(3) == "thorough";
            let out = arg(4).to_string();
            let t0 = Instant::now();
            if !arg(5).is_empty() {
                open_crumbs(arg(5));
            }
            let spaces = spaces(&property, thorough);
            {
                let out = out.clone();
                start_watchdog(
                    move |space, index| {
                        let report = Report {
                            violation: Some(Violation {
                                space,
                                index,
                                message: format!("no return within {CASE_LIMIT_S} s"),
                            }),
                            ..Report::default()
                        };
                        write_report(&out, &report, t0.elapsed().as_secs_f64());
                        std::process::exit(1);
                    },
                    if thorough { 10000 } else { 700 },
                );
            }
            let mut report = Report::default();
            explore(&spaces, &mut report);
            write_report(&out, &report, t0.elapsed().as_secs_f64());
            std::process::exit(if report.violation.is_some() { 1 } else { 0 });
        }
        // mc op NUMBER: one call in a process which has made no other
        "op" => {
            println!("{}", hist::alone(arg(2).parse().unwrap()));
        }
        // mc replay PROPERTY TIER SPACE INDEX
        "replay" => {
            let spaces = spaces(arg(2), arg(3) == "thorough");
            let index: u64 = arg(5).parse().unwrap();
            let sp = spaces.iter().find(|s| s.name == arg(4) || Some(s.name) == arg(4).parse::<usize>().ok().and_then(|k| spaces.get(k)).map(|s| s.name)).expect("space");
            let mut rec = Rec::new();
            rec.want = true;
            start_watchdog(|_, _| { println!("no return within {CASE_LIMIT_S} s"); std::process::exit(1) }, CASE_LIMIT_S + 5);
            std::thread::spawn(|| {
                std::thread::sleep(std::time::Duration::from_secs(CASE_LIMIT_S));
                println!("no return within {CASE_LIMIT_S} s");
                std::process::exit(1);
            });
            // what a case in order finds may depend on the cases before it
            let mut found = run_case(sp, index, &mut rec);
            if sp.threads == 1 && found.is_ok() {
                found = (0..=index).map(|i| run_case(sp, i, &mut rec)).find(|r| r.is_err()).unwrap_or(Ok(()));
            }
            match found {
                Ok(()) => {
                    println!("{}[{}] holds {}", sp.name, index, rec.sample.unwrap_or_default());
                    std::process::exit(0)
                }
                Err(m) => {
                    println!("{}[{}] violated: {}", sp.name, index, m);
                    std::process::exit(1)
                }
            }
        }
        _ => {
            eprintln!("usage: mc run PROPERTY TIER OUT [CRUMBS] | mc replay PROPERTY TIER SPACE INDEX");
            std::process::exit(2);
        }
    }
}
