//! What the language server does with a workspace folder: search it for projects.

use std::process::ExitCode;

fn main() -> ExitCode {
    let dir = std::env::args().nth(1).expect("directory");
    match mabo_project::discover(&dir) {
        Ok(projects) => {
            for p in projects {
                println!("project {} {}", p.project_file.package.name, p.project_path.display());
                for f in p.files {
                    println!("file {}", f.display());
                }
            }
            ExitCode::SUCCESS
        }
        Err(e) => {
            eprintln!("{e:?}");
            ExitCode::FAILURE
        }
    }
}
