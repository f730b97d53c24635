#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dom;
mod interp;
mod mem;
mod models;
mod x86;
mod spec;

use rustc_driver::Compilation;
use rustc_middle::ty::TyCtxt;
use std::io::Write;

struct Cb {
    out: String,
    only: Option<String>,
    meta: Option<String>,
    inv_in: Option<String>,
    inv_out: Option<String>,
    names: bool,
    /// seconds per witness and for the whole run
    limits: (u64, u64),
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let meta = self.meta.as_ref().map(|p| spec::load_meta(p)).unwrap_or_default();
        let res = if self.names { interp::local_names(tcx) } else { interp::analyse_crate(tcx, &meta, self.only.as_deref(), self.inv_in.as_deref(), self.inv_out.as_deref(), self.limits) };
        let mut f = std::fs::File::create(&self.out).expect("cannot create result file");
        for r in res {
            writeln!(f, "{}", r).unwrap();
        }
        Compilation::Stop
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // masm-static --out FILE [--meta FILE] [--only NAME] -- rustc args
    let mut cb = Cb { out: "/dev/stdout".into(), only: None, meta: None, inv_in: None, inv_out: None, names: false, limits: (100_000, 100_000) };
    let mut rest = vec![args.remove(0)];
    let mut it = args.into_iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--out" => cb.out = it.next().unwrap(),
            "--witness-s" => cb.limits.0 = it.next().unwrap().parse().unwrap(),
            "--total-s" => cb.limits.1 = it.next().unwrap().parse().unwrap(),
            "--names" => cb.names = true,
            "--only" => cb.only = it.next(),
            "--inv-in" => cb.inv_in = it.next(),
            "--inv-out" => cb.inv_out = it.next(),
            "--meta" => cb.meta = it.next(),
            "--selftest-x86" => {
                x86::selftest(&it.next().unwrap());
                return;
            }
            "--" => {
                rest.extend(it.by_ref());
            }
            _ => rest.push(a),
        }
    }
    rustc_driver::compiler_entrypoint(&rest, &mut cb);
}
