// Compiles the C shim (atomic-operation hooks, futex and getrandom interposition).
use std::{env, path::PathBuf, process::Command};

fn main() {
	println!("cargo:rerun-if-changed=src/rt.c");
	println!("cargo:rerun-if-changed=build.rs");
	let out = PathBuf::from(env::var("OUT_DIR").unwrap());
	let obj = out.join("simrt.o");
	let lib = out.join("libsimrt.a");
	let ok = Command::new("cc")
		.args(["-O2", "-fPIC", "-ftls-model=initial-exec", "-c", "src/rt.c", "-o"])
		.arg(&obj)
		.status()
		.expect("cc not found")
		.success();
	assert!(ok, "cc failed");
	let _ = std::fs::remove_file(&lib);
	let ok = Command::new("ar").arg("crs").arg(&lib).arg(&obj).status().expect("ar not found").success();
	assert!(ok, "ar failed");
	println!("cargo:rustc-link-search=native={}", out.display());
	println!("cargo:rustc-link-lib=static:+whole-archive=simrt");
}
