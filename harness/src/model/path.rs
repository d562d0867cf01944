//! Web paths.

fn uri_prefix(s: &str) -> Option<usize> {
    let colon = s.find(':')?;
    let mut cs = s[..colon].chars();
    if !cs.next()?.is_alphabetic() {
        return None;
    }
    let rest: Vec<char> = cs.collect();
    if rest.is_empty()
        || !rest
            .iter()
            .all(|&c| super::is_alnum(c) || matches!(c, '.' | '+' | '-'))
    {
        return None;
    }
    let mut e = colon + 1;
    for _ in 0..2 {
        if s[e..].starts_with('/') {
            e += 1;
        }
    }
    Some(e)
}

pub fn is_uri(s: &str) -> bool {
    uri_prefix(s).is_some()
}

pub fn posix(s: &str, sep: char) -> String {
    if sep == '\\' {
        s.replace('\\', "/")
    } else {
        s.to_owned()
    }
}

pub fn web_path(target: &str, start: Option<&str>, sep: char) -> String {
    let target = posix(target, sep);
    let mut prefix = String::new();
    let path = match start {
        Some(s) if !target.starts_with('/') => {
            let s = posix(s, sep);
            let joined = if s.ends_with('/') {
                s + &target
            } else {
                s + "/" + &target
            };
            match uri_prefix(&joined) {
                Some(n) => {
                    prefix = joined[..n].to_owned();
                    joined[n..].to_owned()
                }
                None => joined,
            }
        }
        _ => target,
    };
    let (root, segments) = if let Some(r) = path.strip_prefix('/') {
        ("/", r)
    } else if let Some(r) = path.strip_prefix("./") {
        ("./", r)
    } else {
        ("", path.as_str())
    };
    let mut out: Vec<&str> = vec![];
    for s in segments.split('/') {
        crate::engine::step();
        match s {
            "." => (),
            ".." => match out.last() {
                None if root == "/" => (),
                None | Some(&"..") => out.push(s),
                Some(_) => {
                    out.pop();
                }
            },
            s => out.push(s),
        }
    }
    format!("{prefix}{root}{}", out.join("/").replace(' ', "%20"))
}

/// Length of the scheme that a link may hide.
pub fn scheme(s: &str) -> Option<usize> {
    uri_prefix(s)
}
