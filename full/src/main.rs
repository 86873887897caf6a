//! Properties of the whole crate.
#![recursion_limit = "512"]
mod api;
mod extreme;
mod fit;
mod huge;
mod laws;
mod mix;
mod mv;
#[macro_use]
mod prob;
mod pure;
mod refmath;
mod special;
mod specs;
mod uv;
mod written;

/// All properties but the one on histories of the others.
fn others() -> Vec<pbt::Prop> {
    [uv::props(), prob::props(), fit::props(), mv::props(), mix::props(), special::props(), huge::props(), extreme::props(), written::props()].into_iter().flatten().collect()
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("pure") {
        pure::child()
    }
    let mut props: Vec<pbt::Prop> = vec![];
    for p in others().into_iter().chain(pure::props()) {
        // A property may have sub-checks in several modules.
        match props.iter_mut().find(|q| q.id == p.id) {
            Some(q) => {
                q.subs.extend(p.subs);
                q.assumptions.extend(p.assumptions);
            },
            None => props.push(p),
        }
    }
    let props = props.into_iter().flat_map(|p| {
        // The costly ones: samples by the thousand, quadratures, huge sums.
        let (quick, thorough) = match p.id {
            "C18" => (2, 2),
            "C08" | "C13" | "C14" => (4, 4),
            "C09" | "C11" => (100, 20),
            "C10" | "C16" | "C20" | "C22" | "C29" | "C31" => (50, 10),
            "C06" => (60, 10),
            "C12" => (30, 10),
            "C19" | "C24" | "C25" | "C26" => (20, 10),
            _ => (10, 10),
        };
        pbt::scaled(vec![p], quick, thorough)
    }).collect();
    pbt::run(props)
}
