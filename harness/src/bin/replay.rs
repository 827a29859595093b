//! Runs one harness function natively on recorded inputs.
//! usage: replay FN a,b,c INPUTS   (INPUTS: lines "width value")
fn main() {
    let av: Vec<String> = std::env::args().collect();
    let mut a = [0u64; 3];
    for (i, x) in av[2].split(',').filter(|x| !x.is_empty()).enumerate() {
        a[i] = x.parse().unwrap();
    }
    let inputs: Vec<(u32, u64)> = std::fs::read_to_string(&av[3])
        .unwrap()
        .lines()
        .filter_map(|l| {
            let (w, v) = l.split_once(' ')?;
            Some((w.parse().ok()?, v.trim().parse().ok()?))
        })
        .collect();
    vrt::RT.with(|r| r.borrow_mut().inputs = inputs);
    std::panic::set_hook(Box::new(|i| {
        let ok = vrt::RT.with(|r| r.try_borrow().map(|r| r.allow_panic).unwrap_or(false));
        let outs = vrt::RT.with(|r| r.try_borrow().map(|r| r.outs.clone()).unwrap_or_default());
        for o in outs {
            println!("OUT {o}");
        }
        if ok {
            println!("END panic-ok");
            std::process::exit(0);
        }
        println!("PANIC {i}");
        std::process::exit(1);
    }));
    let f = vharness::REG.iter().find(|x| x.0 == av[1]).expect("no such harness").1;
    // a deep stack, so that only unbounded recursion overflows it
    let h = std::thread::Builder::new().stack_size(256 << 20);
    let inputs = vrt::RT.with(|r| std::mem::take(&mut r.borrow_mut().inputs));
    h.spawn(move || {
        vrt::RT.with(|r| r.borrow_mut().inputs = inputs);
        f(a[0], a[1], a[2]);
        vrt::RT.with(|r| {
            let r = r.borrow();
            for o in &r.outs {
                println!("OUT {o}");
            }
            println!("ASSERTS {} INPUTS {}", r.asserts, r.pos);
            println!("END done");
        });
        std::process::exit(0);
    })
    .unwrap()
    .join()
    .unwrap();
}
