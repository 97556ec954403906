//! Runtime monitors for logreduce-rust.
#[macro_use]
mod fw;
mod alloc;
mod c_archive;
mod c_cli;
mod c_python;
mod c_cache;
mod c_detect;
mod c_e2e;
mod c_files;
mod c_html;
mod c_http;
mod c_index;
mod c_iso;
mod c_reader;
mod c_scale;
mod c_token;
mod c_zuul;
mod gen;
mod httpd;
mod refmodel;
mod scen;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("golden-lines") {
        return c_archive::make_golden_lines();
    }
    if std::env::args().nth(1).as_deref() == Some("golden") {
        return c_archive::make_golden();
    }
    let args: Vec<String> = std::env::args().skip(2).collect();
    match std::env::args().nth(1).as_deref() {
        Some("iso-job") => return c_iso::single(&args),
        Some("iso-race") => return c_iso::race(&args),
        Some("iso-racy") => return c_iso::racy(&args),
        _ => {}
    }
    let mut specs = Vec::new();
    specs.extend(c_reader::specs());
    specs.extend(c_token::specs());
    specs.extend(c_index::specs());
    specs.extend(c_detect::specs());
    specs.extend(c_files::specs());
    specs.extend(c_archive::specs());
    specs.extend(c_cache::specs());
    specs.extend(c_html::specs());
    specs.extend(c_http::specs());
    specs.extend(c_zuul::specs());
    specs.extend(c_cli::specs());
    specs.extend(c_python::specs());
    specs.extend(c_iso::specs());
    specs.extend(c_e2e::specs());
    specs.extend(c_scale::specs());
    std::process::exit(fw::main(&specs));
}
