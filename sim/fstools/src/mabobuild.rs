//! What a build script does: compile the project in the given directory into `OUT_DIR`.

use std::process::ExitCode;

fn main() -> ExitCode {
    let dir = std::env::args().nth(1).expect("project directory");
    let compiler = match std::env::var_os("BYTES_TYPE") {
        Some(_) => mabo_build::Compiler::default().with_bytes_type(mabo_build::BytesType::Bytes),
        None => mabo_build::Compiler::default(),
    };
    match compiler.compile(&dir) {
        Ok(()) => ExitCode::SUCCESS,
        Err(e) => {
            eprintln!("{e:?}");
            ExitCode::FAILURE
        }
    }
}
