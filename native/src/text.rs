//! Contracts over arbitrary text: C04 C25.
use crate::prog::*;
use crate::util::*;
use lc3_ensemble::asm::SourceInfo;
use lc3_ensemble::err::Error as _;
use lc3_ensemble::parse::parse_ast;

fn soup(r: &mut Rng) -> String {
    const T: &[&str] = &["ADD", "add", "R0", "r7", "R8", "R99999999999", "#", "#5", "x", "xFFFF", "x10000", "-", "-1", "#-", "x-", "-32768", "-32769", "65535", "65536", "99999999999999999999999", ",", ":", ";", ";c", "\"", "\"abc\"",
        "\"a\\", "\\", "\\\"", "\"\\é\"", "\"\\", ".", ".orig", ".ORIG", ".end", ".fill", ".stringz", ".blkw", ".external", ".foo", ".é", "label", "lé", "é", "日", "𝄞", "\u{301}", "\n", "\r\n", "\r", "\t", " ", "  ", "\0", "BR", "BRnzp", "NOP", "HALT",
        "TRAP", "x25", "JSR", "LD", "LDR", "RET", "(", ")", "[", "+", "*", "/", "=", "'", "`", "@", "$", "%", "^", "&", "!", "~", "|", "<", ">", "?", "_", "##", "#-#", "-#", "x-x", "0x1", "1a", "#a", "xg", "X", "\u{feff}", "\u{2028}", "\u{85}", "\u{a0}", "ſ", "ŉ", "ß", "٣", "R٣", "x٣", "#٣", "٣٣"];
    let mut s = String::new();
    let n = if r.one(8) { 60 } else { 12 };
    for _ in 0..r.usize(n) {
        match r.below(8) {
            0 => s.push(char::from_u32(match r.below(3) { 0 => r.below(128) as u32, 1 => r.below(0x3000) as u32, _ => r.below(0x110000) as u32 }).unwrap_or('\u{fffd}')),
            _ => s.push_str(r.pick(T)),
        }
        if r.bool() { s.push(' '); }
        if r.one(8) { s.push('\n'); }
    }
    s
}
fn mutate(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.usize(4) {
        let i = r.usize(c.len() + 1);
        match r.below(6) {
            0 if i < c.len() => { c.remove(i); },
            1 => c.insert(i, *r.pick(&['"', '\\', '\n', '\r', 'é', '𝄞', ';', ':', ',', '.', '#', '-', 'x', '9', '\0', '\t', ' ', '@', 'R', '\u{301}'])),
            2 => c.truncate(i),
            3 if i < c.len() => c[i] = char::from_u32(r.below(0x500) as u32).unwrap_or('?'),
            4 if i < c.len() => { let j = i + r.usize(c.len() - i); let p: Vec<char> = c[i..j.min(i + 30)].to_vec(); let at = r.usize(c.len()); c.splice(at..at, p); },
            _ => { for ch in soup(r).chars().take(8) { c.insert(i.min(c.len()), ch); } },
        }
    }
    c.into_iter().collect()
}
fn parse_total(s: &str) -> Result<bool, String> {
    match guard(|| parse_ast(s)).map_err(|e| format!("parsing: {e}"))? {
        Ok(_) => Ok(true),
        Err(e) => {
            let (sp, _, _, _) = guard(|| (e.span(), e.help().map(|h| h.to_string()), e.to_string(), format!("{e:?}"))).map_err(|p| format!("querying the error: {p}"))?;
            let sp = sp.ok_or("the error has no span")?;
            let all = guard(|| { let mut v = vec![sp.first()]; v.extend(sp.iter().cloned()); v }).map_err(|p| format!("querying the span: {p}"))?;
            for x in all { ensure!(x.start <= x.end && x.end <= s.len(), "the span {x:?} of {e} is not within the input of length {}", s.len()); }
            Ok(false)
        },
    }
}
pub fn c04(c: &mut Ctx) {
    c.rule = "a string: random characters and fragments, mutated programs, and all short strings over an alphabet of critical characters".into();
    // all strings of up to 4 characters over critical alphabets
    let mut n = 0u64;
    for (pre, alpha, len) in [
        ("", vec!["\"", "\\", "é", "\n", "\r", "n", "0", " "], 5usize),
        (".stringz \"", vec!["\"", "\\", "é", "𝄞", "\n", "\r", "n", "q"], 5),
        ("", vec!["A", "R", "x", "9", "-", "#", ".", ":", ",", ";", "é", "\n"], 4),
        ("ADD ", vec!["R0", "R9", "#", "-", "1", ",", "x", " ", "\n", "\u{301}"], 4),
        ("L ", vec!["L", ":", "\n", ";", ".end", ".fill", "BR", "1", "\""], 4),
    ] {
        for l in 0..=len {
            let k = alpha.len() as u64;
            for i in 0..k.pow(l as u32) {
                let mut s = String::from(pre);
                let mut j = i;
                for _ in 0..l { s.push_str(alpha[(j % k) as usize]); j /= k; }
                n += 1;
                let ok = c.case(&|| format!("{s:?}"), || { parse_total(&s)?; Ok(None) });
                if !ok { return }
            }
        }
    }
    c.exhaust("all strings of up to 5 (4) symbols over five alphabets of critical symbols", n);
    // sizes
    for s in ["\"".to_string() + &"a".repeat(70000) + "\"", ".stringz \"".to_string() + &"\\n".repeat(65535) + "\"", ".stringz \"".to_string() + &"a".repeat(65535) + "\"", ".stringz \"".to_string() + &"é".repeat(32768), "9".repeat(100000),
        "x".to_string() + &"F".repeat(100000), "R".to_string() + &"0".repeat(100000), "#-".to_string() + &"1".repeat(100000), "L".repeat(200000), ":".repeat(50000), "L ".repeat(50000), "L\n".repeat(50000), "\\".repeat(70000), "\n".repeat(100000), "é".repeat(50000),
        "L:\n".repeat(20000) + "HALT", "\"\\".repeat(1000), ".orig x3000\n".to_string() + &"ADD R0, R0, #1\n".repeat(20000) + ".end"] {
        c.case(&|| format!("{:?}... of length {}", s.chars().take(20).collect::<String>(), s.len()), || { parse_total(&s)?; Ok(None) });
    }
    while c.go() {
        let mut r = c.rng.fork();
        let s = match r.below(3) {
            0 => soup(&mut r),
            _ => { let p = gen_program(&mut r, &GOpts { big: false, ..Default::default() }); let x = render(&mut r, &p, Style::Wild); mutate(&mut r, &x.src) },
        };
        c.case(&|| format!("{s:?}"), || { parse_total(&s)?; Ok(Some(hash(&s))) });
    }
}

fn check_source(s: &str, max: usize) -> Result<(), String> {
    let i = guard(|| SourceInfo::new(s)).map_err(|e| format!("SourceInfo::new: {e}"))?;
    ensure!(i.source() == s, "source() is {:?}", i.source());
    let lines: Vec<&str> = s.split('\n').collect();
    ensure!(i.count_lines() == lines.len(), "{} lines, expected {}", i.count_lines(), lines.len());
    let mut starts = vec![];
    let mut at = 0;
    for l in &lines { starts.push(at); at += l.len() + 1; }
    let step = 1 + lines.len() / max;
    for k in (0..lines.len()).step_by(step) {
        let l = lines[k];
        let (sp, t) = guard(|| (i.line_span(k), i.read_line(k).map(String::from))).map_err(|e| format!("line {k}: {e}"))?;
        ensure!(t.as_deref() == Some(l.trim()), "line {k} reads {t:?}, expected {:?}", l.trim());
        let sp = sp.ok_or_else(|| format!("line {k} has no span"))?;
        ensure!(s.get(sp.clone()) == Some(l.trim()), "the span {sp:?} of line {k} covers {:?}, expected {:?}", s.get(sp.clone()), l.trim());
        if !l.trim().is_empty() {
            let want = starts[k] + (l.len() - l.trim_start().len());
            ensure!(sp == (want..want + l.trim().len()), "line {k} has span {sp:?}, expected {:?}", want..want + l.trim().len());
        } else { ensure!(sp.start >= starts[k] && sp.end <= starts[k] + l.len() + 1, "the span {sp:?} of the blank line {k} is not in the line"); }
    }
    for k in [lines.len(), lines.len() + 1, lines.len() + 7, usize::MAX] {
        let g = guard(|| (i.line_span(k), i.read_line(k).is_some())).map_err(|e| format!("line {k}: {e}"))?;
        ensure!(g == (None, false), "there is no line {k}, but {g:?}");
    }
    let mut line = 0;
    let step = 1 + s.len() / (4 * max);
    for x in (0..s.len() + 5).step_by(step).chain([s.len(), s.len() + 1, s.len() + 1000, usize::MAX / 2, usize::MAX]) {
        if x < s.len() { while line + 1 < lines.len() && starts[line + 1] <= x { line += 1; } } else { line = lines.len() - 1; }
        let g = guard(|| i.get_pos_pair(x)).map_err(|e| format!("get_pos_pair({x}): {e}"))?;
        let w = (line, x - starts[line]);
        ensure!(g == w, "get_pos_pair({x}) = {g:?}, expected {w:?}");
    }
    Ok(())
}
pub fn c25(c: &mut Ctx) {
    c.rule = "a text of at least two lines; every line and every index queried".into();
    let mut n = 0u64;
    for (alpha, len) in [(vec!["\n", " ", "a"], 8usize), (vec!["\n", "\r", "\t", "é", "x"], 5)] {
        for l in 0..=len {
            let k = alpha.len() as u64;
            for i in 0..k.pow(l as u32) {
                let mut s = String::new();
                let mut j = i;
                for _ in 0..l { s.push_str(alpha[(j % k) as usize]); j /= k; }
                n += 1;
                if !c.case(&|| format!("{s:?}"), || { check_source(&s, 1000)?; Ok(Some(hash(&s))) }) { return }
            }
        }
    }
    c.exhaust("all texts of up to 8 (5) characters over two alphabets", n);
    while c.go() {
        let mut r = c.rng.fork();
        let s = match r.below(4) {
            0 => soup(&mut r),
            1 => { let p = gen_program(&mut r, &GOpts { big: false, ..Default::default() }); render(&mut r, &p, Style::Wild).src },
            _ => (0..r.usize(40)).map(|_| *r.pick(&["\n", "\r\n", "\n\n", " ", "\t", "a", "é", "\u{85}", "\u{2028}", "\u{a0}", "\u{3000}", "\r", "word", "𝄞", "\u{b}", "\u{c}"])).collect(),
        };
        c.case(&|| format!("{s:?}"), || { check_source(&s, 200)?; Ok((s.contains('\n')).then(|| hash(&s))) });
    }
}
