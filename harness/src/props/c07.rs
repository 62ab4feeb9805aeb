//! C07: entry_points.txt is read into exactly the declared entry points.
use crate::prop::*;
use posy::verif_hooks::*;
use std::collections::BTreeMap;

type Groups = BTreeMap<String, Vec<(String, String, Option<String>)>>;

fn ident(g: &mut G) -> String {
    let mut s = g.string(b"abxyzABZ_", 1, 1);
    s += &g.string(b"abxyz019_", 0, 4);
    s
}

fn dotted(g: &mut G) -> String {
    g.vec(1, 3, ident).join(".")
}

fn ep_name(g: &mut G) -> String {
    let mut s = g.string(b"abcXYZ019_", 1, 3);
    for _ in 0..g.len(0, 2) {
        s += g.pick(&[".", "-", " ", ":", "/", "+", "["]);
        s += &g.string(b"abc0", 1, 2);
    }
    s
}

fn sp(g: &mut G) -> String {
    g.pick(&["", " ", "", "  ", "\t", " \t "]).to_string()
}

fn noise(g: &mut G, out: &mut Vec<String>) {
    for _ in 0..g.len(0, 2) {
        let l = match g.below(4) {
            0 => String::new(),
            1 => sp(g),
            2 => format!("{}# comment with = and [x]", sp(g)),
            _ => format!("{}; foo = bar:baz", sp(g)),
        };
        out.push(l);
    }
}

pub(super) struct Made {
    pub(super) lines: Vec<String>,
    groups: Groups,
    /// indices of lines that are entries or headers
    entry_lines: Vec<usize>,
    repeated: bool,
}

pub(super) fn make(g: &mut G) -> Made {
    let mut m = Made { lines: vec![], groups: BTreeMap::new(), entry_lines: vec![], repeated: false };
    noise(g, &mut m.lines);
    let mut names: Vec<String> = vec![];
    for _ in 0..g.range(1, 4) {
        let name = match g.below(3) {
            0 => "console_scripts".to_string(),
            1 => "gui_scripts".to_string(),
            _ => dotted(g),
        };
        let name = if !names.is_empty() && g.chance(1, 10) { g.choose(&names).clone() } else { name };
        if names.contains(&name) {
            m.repeated = true;
        }
        names.push(name.clone());
        m.lines.push(format!("{}[{name}]{}", if g.chance(1, 8) { sp(g) } else { String::new() }, sp(g)));
        noise(g, &mut m.lines);
        for _ in 0..g.len(0, 3) {
            let n = ep_name(g);
            let e = m.groups.entry(name.clone()).or_default();
            if e.iter().any(|x| x.0 == n) {
                continue;
            }
            let module = dotted(g);
            let object = if g.chance(3, 4) { Some(dotted(g)) } else { None };
            let mut l = if g.chance(1, 8) { sp(g) } else { String::new() };
            l += &format!("{n}{}={}{module}", sp(g), sp(g));
            l += &sp(g);
            if let Some(o) = &object {
                l += &format!(":{}{o}", sp(g));
                l += &sp(g);
            }
            if g.chance(1, 4) {
                l += g.pick(&["[bar]", "[bar,baz]", "[ bar , baz ]", "[]"]);
                l += &sp(g);
            }
            if g.chance(1, 8) {
                l += g.pick(&["# comment", "; [x]", "#=:"]);
            }
            e.push((n, module, object));
            m.entry_lines.push(m.lines.len());
            m.lines.push(l);
            noise(g, &mut m.lines);
        }
    }
    m.groups.retain(|_, v| !v.is_empty());
    m
}

pub(super) fn join(g: &mut G, lines: &[String]) -> String {
    let le = g.pick(&["\n", "\r\n"]);
    let mut s = lines.join(le);
    if g.bool() {
        s += le;
    }
    s
}

fn read(text: &str) -> Result<Groups, String> {
    let m = parse_entry_points(text).map_err(|e| format!("{e}"))?;
    let mut out = Groups::new();
    for (k, v) in m {
        // an empty group declares nothing
        if !v.is_empty() {
            out.insert(k, v.into_iter().map(|e| (e.name, e.module, e.object)).collect());
        }
    }
    Ok(out)
}

fn wellformed(g: &mut G) -> R {
    let m = make(g);
    let text = join(g, &m.lines);
    g.note(format!("{text:?}"));
    g.nontrivial = !m.groups.is_empty();
    if m.groups.len() > 1 {
        g.label("several groups");
    }
    if m.repeated {
        g.label("repeated header");
    }
    match read(&text) {
        Ok(got) => ensure!(got == m.groups, "{text:?}\n read as {got:?}\n expected {:?}", m.groups),
        // configparser refuses a repeated section
        Err(_) if m.repeated => {}
        Err(e) => return fail(format!("legal entry_points.txt {text:?} refused: {e}")),
    }
    Ok(())
}

fn malformed(g: &mut G) -> R {
    let mut m = make(g);
    let what;
    match g.below(4) {
        0 => {
            what = "a line that is neither header nor entry";
            let first = m.lines.iter().position(|l| l.trim_start().starts_with('[')).unwrap();
            let at = first + 1 + g.usize(m.lines.len() - first);
            let l = g.pick(&["garbage", "a b c", "= mod:obj", "  = mod.x:obj", "[unclosed", "name mod:obj", "x =", "x = ", "foo: bar.baz", "[]"]).to_string();
            m.lines.insert(at, l);
        }
        1 => {
            what = "an entry before any section header";
            let first = m.lines.iter().position(|l| l.trim_start().starts_with('[')).unwrap();
            let at = g.usize(first + 1);
            let (a, b) = (dotted(g), dotted(g));
            let l = if g.bool() { format!("x = {a}:{b}") } else { format!("x = {a}") };
            m.lines.insert(at, l);
        }
        2 => {
            what = "an object reference that is not module[:attr]";
            let first = m.lines.iter().position(|l| l.trim_start().starts_with('[')).unwrap();
            let bad = g
                .pick(&["1mod:obj", "mod:1obj", "mod-x:obj", "mod:obj-x", "mod:obj:x", "mod obj", "mod:", ":obj", "mod..x:obj", "mod.:obj", ".mod:obj", "mod:obj.", "mod:obj()", "mod/x:y", "mod:ob j", "mod [x", "m=o:d", "mod:obj]", "a.1b", "os.system('x')", "mod:obj, x", "mod:\"x\""])
                .to_string();
            m.lines.insert(first + 1, format!("x{}={}{bad}", sp(g), sp(g)));
        }
        _ => {
            what = "an entry joined with the next line";
            if m.entry_lines.is_empty() {
                return Ok(());
            }
            let i = *g.choose(&m.entry_lines);
            let l = m.lines[i].split(['#', ';']).next().unwrap().trim_end().trim_end_matches(|c| c == ']' || c == ' ').to_string();
            if l.contains('[') {
                return Ok(());
            }
            m.lines[i] = format!("{l} other = a.b:c");
        }
    }
    let text = join(g, &m.lines);
    g.note(format!("{what}: {text:?}"));
    g.nontrivial = true;
    g.label(what);
    match read(&text) {
        Ok(got) => fail(format!("{what} is accepted:\n{text}\n as {got:?}")),
        Err(_) => Ok(()),
    }
}

pub fn property() -> Property {
    Property {
        id: "C07",
        level: "exploration",
        assumptions: &[
            "the format is the entry points specification's: configparser with '=' only, case-sensitive; inline comments are stripped, as posy documents; identifiers are ASCII",
            "a repeated section header may be refused (as configparser does) or merged (as importlib.metadata does), but not dropped; a group without entries may be listed or not",
        ],
        subs: vec![
            Sub { name: "wellformed", rule: "1-4 groups of 0-3 entries with comments, blank lines, extras, any legal whitespace, LF or CRLF; exact groups, order, names, modules, objects; non-trivial = at least one entry", quick: 480_000, thorough: 2_000_000, threads: 8, run: wellformed },
            Sub { name: "malformed", rule: "such a file with one line that is malformed, outside a section, or has a bad object reference; must be refused; all non-trivial", quick: 360_000, thorough: 1_500_000, threads: 8, run: malformed },
        ],
    }
}
