//! A strict parser for the Prometheus text exposition format (0.0.4).
#[derive(Clone, Debug, PartialEq)]
pub struct Sample {
    pub name: String,
    pub labels: Vec<(String, String)>,
    pub value: String,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Family {
    pub name: String,
    pub help: Option<String>,
    pub typ: Option<String>,
    pub samples: Vec<Sample>,
}

fn valid_name(s: &str, colon: bool) -> bool {
    !s.is_empty()
        && !s.as_bytes()[0].is_ascii_digit()
        && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_' || (colon && b == b':'))
}

fn unescape_help(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('\\') => o.push('\\'),
            Some('n') => o.push('\n'),
            x => return Err(format!("help text has the escape \\{x:?}")),
        }
    }
    Ok(o)
}

fn sample(line: &str) -> Result<Sample, String> {
    let b = line.as_bytes();
    let mut i = 0;
    while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b':') {
        i += 1;
    }
    let name = &line[..i];
    if !valid_name(name, true) {
        return Err(format!("bad metric name in {line:?}"));
    }
    let mut labels: Vec<(String, String)> = vec![];
    if i < b.len() && b[i] == b'{' {
        i += 1;
        loop {
            if i < b.len() && b[i] == b'}' && labels.is_empty() {
                i += 1;
                break;
            }
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let ln = &line[st..i];
            if !valid_name(ln, false) {
                return Err(format!("bad label name in {line:?}"));
            }
            if !(i + 1 < b.len() && b[i] == b'=' && b[i + 1] == b'"') {
                return Err(format!("label without value in {line:?}"));
            }
            i += 2;
            let mut v: Vec<u8> = vec![];
            loop {
                if i >= b.len() {
                    return Err(format!("unterminated label value in {line:?}"));
                }
                match b[i] {
                    b'"' => {
                        i += 1;
                        break;
                    }
                    b'\\' => {
                        i += 1;
                        match b.get(i) {
                            Some(b'\\') => v.push(b'\\'),
                            Some(b'"') => v.push(b'"'),
                            Some(b'n') => v.push(b'\n'),
                            _ => return Err(format!("bad escape in {line:?}")),
                        }
                        i += 1;
                    }
                    c => {
                        v.push(c);
                        i += 1;
                    }
                }
            }
            if labels.iter().any(|(n, _)| n == ln) {
                return Err(format!("label {ln} twice in {line:?}"));
            }
            labels.push((ln.to_string(), String::from_utf8(v).map_err(|_| "label value is not UTF-8".to_string())?));
            match b.get(i) {
                Some(b',') => i += 1,
                Some(b'}') => {
                    i += 1;
                    break;
                }
                _ => return Err(format!("bad label list in {line:?}")),
            }
        }
    }
    if b.get(i) != Some(&b' ') {
        return Err(format!("no value in {line:?}"));
    }
    let value = &line[i + 1..];
    if value.is_empty() || value.contains([' ', '\t']) || value.parse::<f64>().is_err() {
        return Err(format!("bad value {value:?} in {line:?}"));
    }
    Ok(Sample { name: name.to_string(), labels, value: value.to_string() })
}

/// Parse a whole exposition. Families appear in order of first mention; a family that is mentioned
/// again after another one started is an error.
pub fn parse(b: &[u8]) -> Result<Vec<Family>, String> {
    parse_with(b, false)
}
/// `loose`: suffixed samples belong to the family whose HELP line precedes them even without TYPE.
pub fn parse_with(b: &[u8], loose: bool) -> Result<Vec<Family>, String> {
    let s = std::str::from_utf8(b).map_err(|_| "output is not UTF-8".to_string())?;
    let mut fams: Vec<Family> = vec![];
    if s.is_empty() {
        return Ok(fams);
    }
    if !s.ends_with('\n') {
        return Err(format!("last line does not end with a line feed: {:?}", &s[s.rfind('\n').map_or(0, |i| i + 1)..]));
    }
    let mut names: std::collections::BTreeSet<String> = Default::default();
    for line in s[..s.len() - 1].split('\n') {
        if line.is_empty() {
            continue;
        }
        if let Some(r) = line.strip_prefix('#') {
            let (kw, r) = match r.strip_prefix(" HELP ") {
                Some(r) => ("help", r),
                None => match r.strip_prefix(" TYPE ") {
                    Some(r) => ("type", r),
                    None => return Err(format!("comment line {line:?}")),
                },
            };
            let (name, rest) = r.split_once(' ').ok_or_else(|| format!("truncated {line:?}"))?;
            if !valid_name(name, true) {
                return Err(format!("bad family name in {line:?}"));
            }
            let fresh = match fams.last() {
                Some(f) => f.name != name,
                None => true,
            };
            if fresh {
                if !names.insert(name.to_string()) {
                    return Err(format!("family {name} is not contiguous"));
                }
                fams.push(Family { name: name.to_string(), ..Default::default() });
            }
            let f = fams.last_mut().unwrap();
            if !f.samples.is_empty() {
                return Err(format!("{kw} line for {name} after its samples"));
            }
            if kw == "help" {
                if f.help.is_some() {
                    return Err(format!("second HELP line for {name}"));
                }
                f.help = Some(unescape_help(rest)?);
            } else {
                if f.typ.is_some() {
                    return Err(format!("second TYPE line for {name}"));
                }
                if !["counter", "gauge", "histogram", "summary", "untyped"].contains(&rest) {
                    return Err(format!("unknown type in {line:?}"));
                }
                f.typ = Some(rest.to_string());
            }
            continue;
        }
        let x = sample(line)?;
        let belongs = |f: &Family| {
            x.name == f.name
                || ((f.typ.as_deref() == Some("histogram") || (loose && f.typ.is_none() && f.help.is_some()))
                    && x.name.strip_prefix(f.name.as_str()).is_some_and(|s| ["_bucket", "_sum", "_count"].contains(&s)))
        };
        match fams.last_mut() {
            Some(f) if belongs(f) => f.samples.push(x),
            _ => {
                if !names.insert(x.name.clone()) {
                    return Err(format!("family {} is not contiguous", x.name));
                }
                fams.push(Family { name: x.name.clone(), help: None, typ: None, samples: vec![x] });
            }
        }
    }
    Ok(fams)
}
