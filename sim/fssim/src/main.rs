mod content;
mod defects;
mod engine;
mod project;
mod rustcode;
mod tool;
mod tree;

fn main() -> std::process::ExitCode {
    simcore::drive::main(engine::find)
}
