//! Notifications carry packets as `Debug` text. This parses such text into a tree and compares it
//! with the packet the broker sent. Field order, nesting and whitespace do not matter; if an
//! expected field name is not there at all, the leaf values are compared instead.
use crate::wire::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    /// name { field: value, .. }
    Struct(String, Vec<(String, Tree)>),
    /// name(value, ..); a bare identifier or number is a Tuple with no items
    Tuple(String, Vec<Tree>),
    List(Vec<Tree>),
    Str(String),
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> Option<u8> {
        self.ws();
        self.s.get(self.i).copied()
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == Some(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn list(&mut self, close: u8) -> Result<Vec<Tree>, String> {
        let mut v = vec![];
        loop {
            if self.eat(close) {
                return Ok(v);
            }
            v.push(self.tree()?);
            if !self.eat(b',') && self.peek() != Some(close) {
                return Err(format!("expected , or {} at {}", close as char, self.i));
            }
        }
    }
    fn ident(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || b"_-+.:#".contains(&self.s[self.i])) {
            // "field: value" - a single colon ends an identifier
            if self.s[self.i] == b':' {
                if self.s.get(self.i + 1) == Some(&b':') {
                    self.i += 1;
                } else {
                    break;
                }
            }
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn string(&mut self) -> Result<String, String> {
        // after the opening quote
        let mut out: Vec<u8> = vec![];
        loop {
            let c = *self.s.get(self.i).ok_or("unterminated string")?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).map_err(|e| e.to_string()),
                b'\\' => {
                    let e = *self.s.get(self.i).ok_or("unterminated escape")?;
                    self.i += 1;
                    match e {
                        b'n' => out.push(b'\n'),
                        b't' => out.push(b'\t'),
                        b'r' => out.push(b'\r'),
                        b'0' => out.push(0),
                        b'u' => {
                            if self.s.get(self.i) != Some(&b'{') {
                                return Err("bad \\u".into());
                            }
                            self.i += 1;
                            let st = self.i;
                            while *self.s.get(self.i).ok_or("unterminated \\u")? != b'}' {
                                self.i += 1;
                            }
                            let h = std::str::from_utf8(&self.s[st..self.i]).map_err(|e| e.to_string())?;
                            self.i += 1;
                            let cp = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                            let ch = char::from_u32(cp).ok_or("bad code point")?;
                            out.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes());
                        }
                        x => out.push(x),
                    }
                }
                x => out.push(x),
            }
        }
    }
    fn tree(&mut self) -> Result<Tree, String> {
        match self.peek() {
            None => Err("unexpected end".into()),
            Some(b'"') => {
                self.i += 1;
                Ok(Tree::Str(self.string()?))
            }
            Some(b'[') => {
                self.i += 1;
                Ok(Tree::List(self.list(b']')?))
            }
            Some(b'(') => {
                self.i += 1;
                Ok(Tree::Tuple(String::new(), self.list(b')')?))
            }
            Some(_) => {
                let mut name = self.ident();
                if name.is_empty() {
                    return Err(format!("unexpected byte {:?} at {}", self.s[self.i] as char, self.i));
                }
                // b"..." byte strings
                if name == "b" && self.s.get(self.i) == Some(&b'"') {
                    self.i += 1;
                    return Ok(Tree::Str(self.string()?));
                }
                if self.eat(b'(') {
                    return Ok(Tree::Tuple(name, self.list(b')')?));
                }
                if self.eat(b'{') {
                    let mut v = vec![];
                    loop {
                        if self.eat(b'}') {
                            return Ok(Tree::Struct(name, v));
                        }
                        let f = self.ident();
                        if !self.eat(b':') {
                            return Err(format!("expected : at {}", self.i));
                        }
                        v.push((f, self.tree()?));
                        if !self.eat(b',') && self.peek() != Some(b'}') {
                            return Err(format!("expected , at {}", self.i));
                        }
                    }
                }
                if let Some(n) = name.rsplit("::").next().map(|x| x.to_string()) {
                    name = n;
                }
                Ok(Tree::Tuple(name, vec![]))
            }
        }
    }
}

pub fn parse(s: &str) -> Result<Tree, String> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let t = p.tree()?;
    p.ws();
    if p.i != p.s.len() {
        return Err(format!("text after the value at {}", p.i));
    }
    Ok(t)
}

impl Tree {
    pub fn find(&self, name: &str) -> Option<&Tree> {
        match self {
            Tree::Struct(_, fs) => {
                for (n, t) in fs {
                    if n == name {
                        return Some(t);
                    }
                }
                fs.iter().find_map(|(_, t)| t.find(name))
            }
            Tree::Tuple(_, v) | Tree::List(v) => v.iter().find_map(|t| t.find(name)),
            Tree::Str(_) => None,
        }
    }
    pub fn leaves(&self, out: &mut Vec<String>) {
        match self {
            Tree::Struct(_, fs) => fs.iter().for_each(|(_, t)| t.leaves(out)),
            Tree::Tuple(n, v) => {
                if !n.is_empty() {
                    out.push(n.clone())
                }
                v.iter().for_each(|t| t.leaves(out))
            }
            Tree::List(v) => v.iter().for_each(|t| t.leaves(out)),
            Tree::Str(s) => out.push(format!("\"{}\"", s)),
        }
    }
    pub fn name(&self) -> &str {
        match self {
            Tree::Struct(n, _) | Tree::Tuple(n, _) => n,
            _ => "",
        }
    }
}

fn atom<T: ToString>(x: T) -> Tree {
    Tree::Tuple(x.to_string(), vec![])
}
fn call(n: &str, v: Vec<Tree>) -> Tree {
    Tree::Tuple(n.into(), v)
}
fn st(s: &str) -> Tree {
    Tree::Str(s.into())
}
fn bytes(b: &[u8]) -> Tree {
    Tree::List(b.iter().map(atom).collect())
}

fn prop_tree(p: &Prop) -> Tree {
    match (p.id, &p.val) {
        (0x01, PVal::U8(v)) => call("PayloadFormatId", vec![atom(v)]),
        (0x02, PVal::U32(v)) => call("MessageExpiryInterval", vec![atom(v)]),
        (0x08, PVal::Str(s)) => call("ResponseTopic", vec![st(s)]),
        (0x09, PVal::Bin(b)) => call("CorrelationData", vec![bytes(b)]),
        (0x1F, PVal::Str(s)) => call("ReasonString", vec![st(s)]),
        (0x26, PVal::Pair(k, v)) => call("UserProperty", vec![st(k), st(v)]),
        _ => panic!("harness: property not modelled: {:?}", p),
    }
}

fn props_tree(ps: &[Prop]) -> Tree {
    Tree::List(ps.iter().map(prop_tree).collect())
}

/// The tree the notification for `p` should show; None for packets that yield no notification.
pub fn expected(p: &SPkt) -> Option<(&'static str, Tree)> {
    let f = |n: &str, t: Tree| (n.to_string(), t);
    Some(match p {
        SPkt::Connack { sp, reason, props } => (
            "ConnAck",
            Tree::Struct(
                "Connack".into(),
                vec![
                    f("session_present", atom(sp)),
                    f("reason", atom(reason_name(CONNACK_REASONS, *reason)?)),
                    f("properties", props_tree(props)),
                ],
            ),
        ),
        SPkt::Suback { id, props, reason } => (
            "SubAck",
            Tree::Struct(
                "Suback".into(),
                vec![
                    f("pktid", atom(id)),
                    f("reason", atom(reason_name(SUBACK_REASONS, *reason)?)),
                    f("properties", props_tree(props)),
                ],
            ),
        ),
        SPkt::Unsuback { id, props, reason } => (
            "UnsubAck",
            Tree::Struct(
                "Unsuback".into(),
                vec![
                    f("pktid", atom(id)),
                    f("reason", atom(reason_name(UNSUBACK_REASONS, *reason)?)),
                    f("properties", props_tree(props)),
                ],
            ),
        ),
        SPkt::Publish { dup, qos, retain, topic, id, props, payload } => {
            let text = props.iter().any(|p| p.id == 1 && p.val == PVal::U8(1));
            let pl = if text {
                call("String", vec![st(&String::from_utf8_lossy(payload))])
            } else {
                call("Bytes", vec![bytes(payload)])
            };
            let q = ["AtMostOnce", "AtLeastOnce", "ExactlyOnce"][*qos as usize];
            (
                "Message",
                Tree::Struct(
                    "Publish".into(),
                    vec![
                        f("topic", st(topic)),
                        f("payload", pl),
                        f("properties", props_tree(props)),
                        f("dup", atom(dup)),
                        f("qos", atom(q)),
                        f("retain", atom(retain)),
                        f("pktid", if *qos > 0 { call("Some", vec![atom(id)]) } else { atom("None") }),
                    ],
                ),
            )
        }
        SPkt::Puback { .. } | SPkt::Pingresp | SPkt::Disconnect { .. } => return None,
    })
}

fn clip(s: &str) -> String {
    if s.len() > 300 {
        let mut e = 300;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}... ({} bytes)", &s[..e], s.len())
    } else {
        s.to_owned()
    }
}

/// Does `text` (of a notification of kind `kind`) show packet `p`?
pub fn shows(kind: &str, text: &str, p: &SPkt) -> Result<(), String> {
    let (want_kind, want) = expected(p).ok_or_else(|| format!("unexpected notification {} {}", kind, clip(text)))?;
    if kind != want_kind {
        return Err(format!("notification is a {}, expected a {}: {}", kind, want_kind, clip(text)));
    }
    let got = parse(text).map_err(|e| format!("cannot read notification text ({}): {}", e, clip(text)))?;
    let fields = match &want {
        Tree::Struct(_, fs) => fs,
        _ => unreachable!(),
    };
    let mut missing = false;
    for (n, w) in fields {
        match got.find(n) {
            None => missing = true,
            Some(g) if g == w => {}
            Some(g) => {
                return Err(format!(
                    "{} is {}, expected {}",
                    n,
                    clip(&format!("{:?}", g)),
                    clip(&format!("{:?}", w))
                ))
            }
        }
    }
    if missing {
        let (mut a, mut b) = (vec![], vec![]);
        got.leaves(&mut a);
        want.leaves(&mut b);
        a.sort();
        b.sort();
        // every expected value must be there
        let mut i = 0;
        for w in &b {
            while i < a.len() && &a[i] < w {
                i += 1;
            }
            if i >= a.len() || &a[i] != w {
                return Err(format!("value {} not shown in {}", clip(w), clip(text)));
            }
            i += 1;
        }
    }
    Ok(())
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn roundtrip() {
        let s = "a\"b\\\n\u{301}é{}[](),: \u{7f}\0";
        let t = parse(&format!("Publish {{ topic: {:?}, payload: Bytes([1, 2]), x: Some((3, \"q\")), r: std::A }}", s)).unwrap();
        assert_eq!(t.find("topic"), Some(&Tree::Str(s.into())));
        assert_eq!(t.find("payload"), Some(&call("Bytes", vec![bytes(&[1, 2])])));
        assert_eq!(t.find("r"), Some(&atom("A")));
    }
}
