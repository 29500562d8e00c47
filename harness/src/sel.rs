//! Independent reference for name selection (written from the property's text, no glob library).
fn parse_alts(p: &[char]) -> Option<(Vec<Vec<char>>, usize)> {
    // p[0] == '{' ; returns the alternatives and the index after the closing brace
    let (mut depth, mut cur, mut out, mut i) = (0, vec![], vec![], 0);
    let mut incls = false;
    while i < p.len() {
        let c = p[i];
        if incls {
            cur.push(c);
            if c == ']' {
                incls = false
            }
        } else {
            match c {
                '{' => {
                    depth += 1;
                    if depth > 1 {
                        cur.push(c)
                    }
                }
                '}' => {
                    depth -= 1;
                    if depth == 0 {
                        out.push(cur);
                        return Some((out, i + 1));
                    }
                    cur.push(c)
                }
                ',' if depth == 1 => out.push(std::mem::take(&mut cur)),
                '[' => {
                    incls = true;
                    cur.push(c)
                }
                _ => cur.push(c),
            }
        }
        i += 1;
    }
    None
}
fn m(n: &[char], p: &[char]) -> bool {
    if p.is_empty() {
        return n.is_empty();
    }
    match p[0] {
        '*' => (0..=n.len()).any(|k| m(&n[k..], &p[1..])),
        '?' => !n.is_empty() && m(&n[1..], &p[1..]),
        '[' => {
            if n.is_empty() {
                return false;
            }
            let mut i = 1;
            let neg = i < p.len() && (p[i] == '!' || p[i] == '^');
            if neg {
                i += 1
            }
            let mut hit = false;
            let mut first = true;
            while i < p.len() && (first || p[i] != ']') {
                first = false;
                if i + 2 < p.len() && p[i + 1] == '-' && p[i + 2] != ']' {
                    hit |= p[i] <= n[0] && n[0] <= p[i + 2];
                    i += 3;
                } else {
                    hit |= p[i] == n[0];
                    i += 1;
                }
            }
            hit != neg && m(&n[1..], &p[i + 1..])
        }
        '{' => {
            let (alts, e) = parse_alts(p).expect("balanced braces");
            alts.iter().any(|a| {
                let mut q = a.clone();
                q.extend_from_slice(&p[e..]);
                m(n, &q)
            })
        }
        '\\' if p.len() > 1 => !n.is_empty() && n[0] == p[1] && m(&n[1..], &p[2..]),
        c => !n.is_empty() && n[0] == c && m(&n[1..], &p[1..]),
    }
}
pub fn glob(name: &str, pat: &str) -> bool {
    m(&name.chars().collect::<Vec<_>>(), &pat.chars().collect::<Vec<_>>())
}
pub fn selected(name: &str, spec: &str) -> bool {
    sub(name, spec).is_some()
}
/// the part of the selector that selects the name
pub fn sub<'a>(name: &str, spec: &'a str) -> Option<&'a str> {
    if spec.contains('{') {
        glob(name, spec).then_some(spec)
    } else {
        spec.split(',').find(|s| glob(name, s))
    }
}
pub fn opt(spec: &str) -> (&str, bool) {
    match spec.strip_prefix("?~") {
        Some(s) => (s, true),
        None => (spec, false),
    }
}
