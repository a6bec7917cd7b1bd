//! Running the Typst compiler.
use std::io::Write;
use std::process::{Command, Stdio};

/// A Typst string literal.
pub fn lit(t: &str) -> String {
    let mut o = String::from("\"");
    for c in t.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c);
            }
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// Runs a Typst document; what `<x>` marks, as JSON.
pub fn typst(src: &str) -> Result<String, String> {
    let mut c = Command::new("typst")
        .args(["query", "--root", "/", "-", "<x>", "--field", "value"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("typst does not run: {e}"))?;
    c.stdin.take().unwrap().write_all(src.as_bytes()).map_err(|e| e.to_string())?;
    let out = c.wait_with_output().map_err(|e| e.to_string())?;
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    if out.status.success() {
        Ok(String::from_utf8_lossy(&out.stdout).to_string())
    } else if err.contains("error:") {
        Err(err.lines().filter(|l| l.contains("error:") || l.contains("hint:")).collect::<Vec<_>>().join("; "))
    } else {
        panic!("typst failed: {err}");
    }
}
