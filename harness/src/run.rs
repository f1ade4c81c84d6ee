// The two main functions, included by both harness crates.
#[cfg(not(feature = "replay"))]
fn main() {
    // keeps every entry in the module; never run
    for e in ENTRIES {
        (e.1)();
    }
}

#[cfg(feature = "replay")]
fn main() {
    // replay ENTRY DIR P,P,.. I,I,..   (or "-": one run per input line on stdin)
    let a: Vec<String> = std::env::args().collect();
    let list = |s: &str| -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    let f = ENTRIES.iter().find(|e| e.0 == a[1]).expect("entry").1;
    let reset = |inp: Vec<u64>| {
        rt::CTX.with(|c| {
            let mut c = c.borrow_mut();
            c.inputs = inp;
            c.pos = 0;
            c.params = list(&a[3]);
            c.dir = a[2].clone();
            c.trace.clear();
            c.covers.clear();
            c.files = 0;
        })
    };
    let show = || {
        rt::CTX.with(|c| {
            let c = c.borrow();
            println!("TRACE {:?} COVERS {:?} LEFT {}", c.trace, c.covers, c.inputs.len() as i64 - c.pos as i64);
        })
    };
    if a[4] == "-" {
        let mut l = String::new();
        while std::io::stdin().read_line(&mut l).unwrap() > 0 {
            let inp = list(l.trim());
            // each on its own, so that none can influence the next
            rt::in_child(&|| {
                reset(inp.clone());
                f();
                show();
            });
            l.clear();
        }
    } else {
        reset(list(&a[4]));
        f();
        show();
    }
}
